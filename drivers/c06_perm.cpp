// Permutation steps, shuffles, random swaps, samples and the sorts by chance.
#include "conts.hpp"
#include <set>
#include <sprout/algorithm/next_permutation.hpp>
#include <sprout/algorithm/prev_permutation.hpp>
#include <sprout/algorithm/shuffle.hpp>
#include <sprout/algorithm/shuffle_result.hpp>
#include <sprout/algorithm/random_shuffle.hpp>
#include <sprout/algorithm/random_swap.hpp>
#include <sprout/algorithm/random_swap_result.hpp>
#include <sprout/algorithm/sample.hpp>
#include <sprout/algorithm/bogo_sort.hpp>
#include <sprout/algorithm/bogo_sort_result.hpp>
#include <sprout/algorithm/bozo_sort.hpp>
#include <sprout/algorithm/bozo_sort_result.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/random/linear_congruential.hpp>
#include <sprout/random/mersenne_twister.hpp>
#include <sprout/range/algorithm.hpp>
using namespace vf;
typedef sprout::minstd_rand0 G;

// functional call returning pair(container, x)
#define FNP(FIELDS, CONT, CALL, X) do { \
		vf::Snap b_ = vf::snap(CONT); vf::Ev e_ = vf::Ev FIELDS; vf::before(e_, b_); \
		auto p_ = CALL; vf::Snap r_ = vf::snap(sprout::first(p_)); vf::after(e_, r_); X; \
		vf::Snap c_ = vf::snap(CONT); if (c_.w != b_.w || c_.l != b_.l || c_.h != b_.h) e_("w2", c_.w); \
		e_.emit(); } while (0)
template<typename C> struct Step {
	C c;
	template<typename T> void operator()(T const& t) const {
		char const* n = C::name();
#define ONE(OP) FNP((#OP)("c", n), t, sprout::OP(t, c), e_("x", sprout::second(p_))); FNP((#OP)("c", n), t, sprout::fit::OP(t, c), e_("x", sprout::second(p_))); \
		if (std::is_same<C, c_lt>::value) { FNP((#OP)("c", n), t, sprout::OP(t), e_("x", sprout::second(p_))); FNP((#OP)("c", n), t, sprout::fit::OP(t), e_("x", sprout::second(p_))); }
		ONE(next_permutation) ONE(prev_permutation)
#undef ONE
		auto s0 = snap(t), s1 = snap(sprout::prev_permutation(sprout::next_permutation(t, c).first, c).first), s2 = snap(sprout::next_permutation(sprout::prev_permutation(t, c).first, c).first);
		Ev("roundtrip")("c", n)("a", V(s0.w.begin() + s0.l, s0.w.begin() + s0.h))("r", V(s1.w.begin() + s1.l, s1.w.begin() + s1.h)).emit();
		Ev("roundtrip")("c", n)("a", V(s0.w.begin() + s0.l, s0.w.begin() + s0.h))("r", V(s2.w.begin() + s2.l, s2.w.begin() + s2.h)).emit();
	}
};
#define AT(k) mmk<I>::at(x.data(), k)
#define INX(NAME, RES) { V x(w); Ev e_(NAME); e_("c", n)("w", x)("l", l)("h", h); bool q_ = RES; e_("r", x)("rl", l)("rh", h)("x", q_).emit(); }
template<typename I, typename C> void instep(V const& v, C c, int pre, int post) {
	char const* n = C::name();
	V w(pre, 35); w.insert(w.end(), v.begin(), v.end()); w.insert(w.end(), post, 5);
	int l = pre, h = pre + (int)v.size();
	typedef sprout::range::range_container<I> R;
	INX("next_permutation", sprout::next_permutation(AT(l), AT(h), c)) INX("prev_permutation", sprout::prev_permutation(AT(l), AT(h), c))
	INX("next_permutation", sprout::range::next_permutation(R(AT(l), AT(h)), c)) INX("prev_permutation", sprout::range::prev_permutation(R(AT(l), AT(h)), c))
	if (std::is_same<C, c_lt>::value) {
		INX("next_permutation", sprout::next_permutation(AT(l), AT(h))) INX("prev_permutation", sprout::prev_permutation(AT(l), AT(h)))
		INX("next_permutation", sprout::range::next_permutation(R(AT(l), AT(h)))) INX("prev_permutation", sprout::range::prev_permutation(R(AT(l), AT(h))))
	}
}
void steps(V const& k, int salt) {
	V t = tagged(k);
	tag() = "array"; whole(k, Step<c_lt>{c_lt()}); whole(t, Step<c_kgt>{c_kgt()});
	if (salt % 3 == 0) { tag() = "window"; if (t.size() < 8) { window<8>(k, salt / 3 % (9 - (int)k.size()), salt, Step<c_lt>{c_lt()}); window<8>(t, salt / 3 % (9 - (int)t.size()), salt + 1, Step<c_key>{c_key()}); } }
	tag() = "inplace"; instep<int*>(k, c_lt(), salt % 2, 1); instep<mbid>(t, c_key(), 1, 1); if (salt % 2) instep<mrai>(t, c_kgt(), 1, 0); else instep<mbid>(k, c_lt(), 0, 1);
}
template<typename T> void cycles(T a, bool inplace) {
	begin_history();
	V first = snap(a).w; Ev("start")("r", first).emit();
	bool more = true; int guard = 0;
	while (more && ++guard < 3000) { if (inplace) more = sprout::next_permutation(a.begin(), a.end()); else { auto p = sprout::next_permutation(a); a = p.first; more = p.second; } Ev("next")("c", "lt")("r", snap(a).w)("x", more).emit(); }
	Ev("cycle")("a", first).emit();
	std::reverse(a.begin(), a.end()); V last = snap(a).w; // the last arrangement
	Ev("start")("r", last).emit(); more = true; guard = 0;
	while (more && ++guard < 3000) { if (inplace) more = sprout::prev_permutation(a.begin(), a.end()); else { auto p = sprout::prev_permutation(a); a = p.first; more = p.second; } Ev("prev")("c", "lt")("r", snap(a).w)("x", more).emit(); }
	Ev("cycle")("a", last).emit();
	end_history();
}
struct Cyc { bool ip; template<typename T> void operator()(T const& t) const { cycles(t, ip); } };

struct Chance {
	unsigned s; bool slow;
	template<typename T> void operator()(T const& t) const {
		G const g(s);
#define VIEW(P) FNP(("shuffle"), t, P, e_("g", !(sprout::second(p_) == g)))
		VIEW(sprout::shuffle_result(t, g)); VIEW(sprout::fit::shuffle_result(t, g));
		FN(("shuffle"), t, sprout::shuffle(t, g)); FN(("shuffle"), t, sprout::fit::shuffle(t, g));
		Ev("same")("x", snap(sprout::shuffle(t, g)).w)("y", snap(sprout::shuffle_result(t, g).first).w).emit();
		FNP(("random_swap"), t, sprout::random_swap_result(t, g), e_("g", !(sprout::second(p_) == g))); FNP(("random_swap"), t, sprout::fit::random_swap_result(t, g), e_("g", !(sprout::second(p_) == g)));
		FN(("random_swap"), t, sprout::random_swap(t, g)); FN(("random_swap"), t, sprout::fit::random_swap(t, g));
		Ev("same")("x", snap(sprout::random_swap(t, g)).w)("y", snap(sprout::random_swap_result(t, g).first).w).emit();
		if (slow) {
#define SORTS(OP) FN(("sorted_by_chance")("c", "lt"), t, sprout::OP(t, g)); FN(("sorted_by_chance")("c", "gt"), t, sprout::OP(t, g, c_gt())); \
			FN(("sorted_by_chance")("c", "lt"), t, sprout::fit::OP(t, g)); FN(("sorted_by_chance")("c", "key"), t, sprout::fit::OP(t, g, c_key()));
#define SORTR(OP) FNP(("sorted_by_chance")("c", "lt"), t, sprout::OP(t, g), e_("g", !(sprout::second(p_) == g))); FNP(("sorted_by_chance")("c", "gt"), t, sprout::OP(t, g, c_gt()), e_("g", !(sprout::second(p_) == g))); \
			FNP(("sorted_by_chance")("c", "lt"), t, sprout::fit::OP(t, g), e_("g", !(sprout::second(p_) == g))); FNP(("sorted_by_chance")("c", "kgt"), t, sprout::fit::OP(t, g, c_kgt()), e_("g", !(sprout::second(p_) == g)));
			SORTS(bogo_sort) SORTS(bozo_sort) SORTR(bogo_sort_result) SORTR(bozo_sort_result)
		}
	}
};
#define INR(NAME, F, STMT) { V x(w); G g(s), g0(g); Ev e_(NAME); e_ F; e_("w", x)("l", l)("h", h); STMT; e_("r", x)("rl", l)("rh", h)("g", !(g == g0)).emit(); }
#define INR0(NAME, STMT) { V x(w); G g(s); auto rand = [&g](int n) { return int(g() % (unsigned)n); }; Ev e_(NAME); e_("w", x)("l", l)("h", h); STMT; e_("r", x)("rl", l)("rh", h).emit(); }
template<typename I> void inchance(V const& v, unsigned s, bool slow) {
	V w(1, 77); w.insert(w.end(), v.begin(), v.end()); w.insert(w.end(), 1, 78);
	int l = 1, h = 1 + (int)v.size();
	typedef sprout::range::range_container<I> R;
	INR("shuffle", , sprout::shuffle(AT(l), AT(h), g)) INR("shuffle", , sprout::range::shuffle(R(AT(l), AT(h)), g))
	INR("random_swap", , sprout::random_swap(AT(l), AT(h), g)) INR("random_swap", , sprout::range::random_swap(R(AT(l), AT(h)), g))
	INR0("shuffle", sprout::random_shuffle(AT(l), AT(h), rand)) INR0("shuffle", sprout::range::random_shuffle(R(AT(l), AT(h)), rand))
	if (slow) {
		INR("sorted_by_chance", ("c", "lt"), sprout::bogo_sort(AT(l), AT(h), g)) INR("sorted_by_chance", ("c", "gt"), sprout::bogo_sort(AT(l), AT(h), g, c_gt()))
		INR("sorted_by_chance", ("c", "lt"), sprout::bozo_sort(AT(l), AT(h), g)) INR("sorted_by_chance", ("c", "gt"), sprout::bozo_sort(AT(l), AT(h), g, c_gt()))
		INR("sorted_by_chance", ("c", "lt"), sprout::range::bogo_sort(R(AT(l), AT(h)), g)) INR("sorted_by_chance", ("c", "kgt"), sprout::range::bogo_sort(R(AT(l), AT(h)), g, c_kgt()))
		INR("sorted_by_chance", ("c", "lt"), sprout::range::bozo_sort(R(AT(l), AT(h)), g)) INR("sorted_by_chance", ("c", "kgt"), sprout::range::bozo_sort(R(AT(l), AT(h)), g, c_kgt()))
	}
}
template<typename I> V sampleo(V const& a, int n, unsigned s, bool rg) {
	G g(s); V r; I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size()); sprout::range::range_container<I> c(f, l);
	if (rg) sprout::range::sample(c, std::back_inserter(r), n, g); else sprout::sample(f, l, std::back_inserter(r), n, g);
	return r;
}
template<typename I> V sampler(V const& a, int n, unsigned s, bool rg) {
	G g(s); V r(a.size() + 2, -1); I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size()); sprout::range::range_container<I> c(f, l);
	auto e = rg ? sprout::range::sample(c, r.begin(), n, g) : sprout::sample(f, l, r.begin(), n, g);
	r.resize(e - r.begin()); return r;
}
template<typename S> raw setof(S const& s) { raw x; x.s = "["; for (auto& v : s) { if (x.s.size() > 1) x.s += ","; x.s += js(v); } x.s += "]"; return x; }
template<int N> void reach() {
	V v; for (int i = 0; i < N; ++i) v.push_back(10 * i + i);
	auto a = arr<N>(v);
	int const T = 600;
	std::set<V> s1, s2, s3, s4, s5;
	G chain(1), chain2(1);
	for (int i = 1; i <= T; ++i) {
		{ auto p = sprout::shuffle_result(a, G(chain)); s1.insert(snap(p.first).w); chain = p.second; }
		{ auto p = sprout::random_swap_result(a, G(chain2)); s2.insert(snap(p.first).w); chain2 = p.second; }
		V x(v); sprout::shuffle(x.begin(), x.end(), chain); s3.insert(x);
		V y(v); sprout::random_swap(y.begin(), y.end(), chain); s4.insert(y);
		V z(v); sprout::random_shuffle(z.begin(), z.end(), [&](int n) { return int(chain() % (unsigned)n); }); s5.insert(z);
	}
	Ev("reach_shuffle")("a", v)("r", setof(s1)).emit(); Ev("reach_swap")("a", v)("r", setof(s2)).emit();
	Ev("reach_shuffle")("a", v)("r", setof(s3)).emit(); Ev("reach_swap")("a", v)("r", setof(s4)).emit(); Ev("reach_shuffle")("a", v)("r", setof(s5)).emit();
	for (int n = 0; n <= N; ++n) {
		std::set<V> q1, q2;
		for (int i = 1; i <= T; ++i) { V x; sprout::sample(v.begin(), v.end(), std::back_inserter(x), n, chain); q1.insert(x); V y(N); auto e = sprout::sample(v.begin(), v.end(), y.begin(), n, chain); y.resize(e - y.begin()); q2.insert(y); }
		Ev("reach_sample")("a", v)("n", n)("r", setof(q1)).emit(); Ev("reach_sample")("a", v)("n", n)("r", setof(q2)).emit();
	}
}
int main(int argc, char** argv) {
	init(argc, argv);
	bool th = thorough();
	int salt = 0;
#if PART == 1
	all_seqs(3, th ? 6 : 5, [&](V const& v) { steps(v, salt++); });
	for (int i = 0; i < (th ? 1500 : 150); ++i) { V v = rnd_seq(rnd(2, 5), rnd(3, 7)); if (i % 2) std::sort(v.begin() + rnd(0, 2), v.end(), std::greater<int>()); steps(v, salt++); }
	for (int i = 0; i < (th ? 300 : 60); ++i) { V v = rnd_seq(rnd(2, 9), rnd(9, 14)); std::sort(v.begin() + rnd(0, 6), v.end(), std::greater<int>()); instep<int*>(v, c_lt(), 1, 1); instep<mbid>(tagged(v), c_key(), 1, 1); }
#elif PART == 2
	all_seqs(3, th ? 6 : 5, [&](V const& v) { if (std::is_sorted(v.begin(), v.end()) && !v.empty()) { whole(v, Cyc{false}); whole(v, Cyc{true}); } });
	V w; for (int i = 0; i < (th ? 6 : 5); ++i) { w.push_back(i); whole(w, Cyc{false}); whole(w, Cyc{true}); }
#else
	for (unsigned s = 1; s <= (th ? 400u : 60u); ++s) for (int n = 0; n <= 8; ++n) {
		V v = rnd_seq(rnd(2, 9), n); v = tagged(v); bool slow = n <= 4;
		if (s % 9 == 0) std::sort(v.begin(), v.end());
		tag() = "array"; whole(v, Chance{s * 37 + seed(), slow});
		tag() = "window"; if (n < 8) window<8>(v, s % (9 - n), s, Chance{s * 41 + seed(), n <= 3});
		tag() = "inplace"; inchance<int*>(v, s * 43 + seed(), slow); inchance<mrai>(v, s * 47 + seed(), slow);
		for (int k = 0; k <= n + 1; ++k) {
			Ev("sample_ordered")("a", v)("n", k)("r", sampleo<fwd>(v, k, s, s % 2)).emit(); Ev("sample_ordered")("a", v)("n", k)("r", sampleo<rai>(v, k, s, s % 2)).emit();
			Ev("sample")("a", v)("n", k)("r", sampler<inp>(v, k, s, s % 2)).emit(); Ev("sample")("a", v)("n", k)("r", sampler<int const*>(v, k, s, s % 2)).emit();
		}
	}
	reach<1>(); reach<2>(); reach<3>(); reach<4>();
#endif
	return done();
}
