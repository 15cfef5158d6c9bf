// C09: functional edits on whole arrays and windows (spec/Edits.tla).
#include "conts.hpp"
#include <sprout/operation.hpp>
#include <sprout/sub_array.hpp>
using namespace vf;
#ifndef PART
#define PART 1
#endif
template<typename T, std::size_t N> bool is_arr(sprout::array<T, N> const&) { return true; }
template<typename C> bool is_arr(sprout::sub_array<C> const&) { return false; }
// both forms and all call styles of one edit
#define BOTH(NAME, POS, X, NN, K, PAD, CONT, CALL) do { \
		FN((NAME)("f", "fixed")("pos", POS)("x", X)("n", NN)("k", K)("pad", PAD)("ar", is_arr(CONT)), CONT, sprout::fixed::CALL); \
		FN((NAME)("f", "fit")("pos", POS)("x", X)("n", NN)("k", K)("pad", PAD)("ar", is_arr(CONT)), CONT, sprout::fit::CALL); } while (0)
#define PAIR(NAME, FIELDS, CONT, CALL) do { \
		FN((NAME)("f", "fixed") FIELDS, CONT, sprout::fixed::CALL); FN((NAME)("f", "fit") FIELDS, CONT, sprout::fit::CALL); } while (0)

template<typename C> typename sprout::container_traits<C>::const_iterator at(C const& c, int p) { return sprout::next(sprout::begin(c), p); }

struct grow {
	int a, b, d;
	template<typename C> void operator()(C const& c) const {
		int n = int(sprout::size(c));
		V none, x1(1, a), x2{a, b}, x3{a, b, d};
		BOTH("push_back", 0, x1, 1, 0, 0, c, push_back(c, a));
		BOTH("push_back", 0, x3, 1, 0, 0, c, push_back(c, a, b, d));
		BOTH("push_front", 0, x1, 1, 0, 0, c, push_front(c, a));
		BOTH("push_front", 0, x2, 1, 0, 0, c, push_front(c, a, b));
		BOTH("push_back", 0, x1, 3, 0, 0, c, template push_back_n<3>(c, a));
		BOTH("push_back", 0, x2, 2, 0, 0, c, template push_back_n<2>(c, a, b));
		BOTH("push_front", 0, x1, 2, 0, 0, c, template push_front_n<2>(c, a));
		BOTH("push_front", 0, x2, 2, 0, 0, c, template push_front_n<2>(c, a, b));
		for (int p = 0; p <= n; ++p) {
			BOTH("insert", p, x1, 1, 0, 0, c, insert(c, p, a));
			BOTH("insert", p, x3, 1, 0, 0, c, insert(c, at(c, p), a, b, d));
			BOTH("insert", p, x2, 2, 0, 0, c, template insert_n<2>(c, p, a, b));
			BOTH("insert", p, x1, 3, 0, 0, c, template insert_n<3>(c, at(c, p), a));
			sprout::array<int, 3> in = {{a, b, d}};
			BOTH("append", p, x3, 1, 0, 0, c, append(c, p, in));
			BOTH("append", p, x3, 1, 0, 0, c, append(c, at(c, p), in));
			auto w = sprout::sub(in, 1, 2);
			BOTH("append", p, V(1, b), 1, 0, 2, c, append(c, p, w));
		}
		sprout::array<int, 2> in = {{a, b}};
		BOTH("append_back", 0, x2, 1, 0, 0, c, append_back(c, in));
		BOTH("append_front", 0, x2, 1, 0, 0, c, append_front(c, in));
		auto w = sprout::sub(in, 0, 1);
		BOTH("append_back", 0, x1, 1, 0, 1, c, append_back(c, w));
		BOTH("append_front", 0, x1, 1, 0, 1, c, append_front(c, w));
	}
};
template<typename C, int K, bool = (sprout::container_traits<C>::static_size >= K)> struct shrinkk { static void go(C const&) {} };
template<typename C, int K> struct shrinkk<C, K, true> {
	static void go(C const& c) {
		int n = int(sprout::size(c));
		V none;
		if (n < K) return;
		BOTH("pop_back", 0, none, 0, K, 0, c, template pop_back_n<K>(c));
		BOTH("pop_front", 0, none, 0, K, 0, c, template pop_front_n<K>(c));
		for (int p = 0; p + K <= n; ++p) {
			BOTH("erase", p, none, 0, K, 0, c, template erase_n<K>(c, p));
			BOTH("erase", p, none, 0, K, 0, c, template erase_n<K>(c, at(c, p)));
		}
	}
};
struct shrink {
	int a;
	template<typename C> void operator()(C const& c) const {
		int n = int(sprout::size(c));
		V none;
		if (n > 0) {
			BOTH("pop_back", 0, none, 0, 1, 0, c, pop_back(c));
			BOTH("pop_front", 0, none, 0, 1, 0, c, pop_front(c));
		}
		for (int p = 0; p < n; ++p) {
			BOTH("erase", p, none, 0, 1, 0, c, erase(c, p));
			BOTH("erase", p, none, 0, 1, 0, c, erase(c, at(c, p)));
			PAIR("set", ("pos", p)("v", a), c, set(c, p, a));
			PAIR("set", ("pos", p)("v", a), c, set(c, at(c, p), a));
		}
		shrinkk<C, 1>::go(c); shrinkk<C, 2>::go(c); shrinkk<C, 3>::go(c); shrinkk<C, 4>::go(c);
	}
};
struct shape {
	int a;
	template<int N, typename C> static void sz(C const& c, int a) {
		PAIR("resize", ("n", N)("v", a), c, template resize<N>(c, a));
		PAIR("resize", ("n", N)("v", 0), c, template resize<N>(c));
		PAIR("resize_backward", ("n", N)("v", a), c, template resize_backward<N>(c, a));
		PAIR("resize_backward", ("n", N)("v", 0), c, template resize_backward<N>(c));
		typedef sprout::array<int, N> R;
		PAIR("realign", ("n", N)("v", a), c, template realign_to<R>(c, a));
		PAIR("realign", ("n", N)("v", 0), c, template realign_to<R>(c));
	}
	template<typename C> void operator()(C const& c) const {
		int n = int(sprout::container_traits<C>::static_size);
		PAIR("realign", ("n", n)("v", a), c, realign(c, a));
		PAIR("realign", ("n", n)("v", 0), c, realign(c));
		sz<1>(c, a); sz<2>(c, a); sz<3>(c, a); sz<4>(c, a); sz<6>(c, a); sz<8>(c, a);
	}
};

template<typename F> void everywhere(F f, int reps) {
	all_seqs(2, 4, [&](V const& k) {
		V v(k); for (std::size_t i = 0; i < v.size(); ++i) v[i] = v[i] * 10 + int(i) + 1;
		whole(v, f);
	}, 1);
	for (int i = 0; i < reps; ++i) {
		whole(rnd_seq(90, rnd(5, 8)), f);
		int len = rnd(0, 5);
		window<5>(rnd_seq(90, len), rnd(0, 5 - len), i, f);
		len = rnd(0, 7);
		window<7>(rnd_seq(90, len), rnd(0, 7 - len), i / 2, f);
	}
	for (int len = 0; len <= 4; ++len) for (int l = 0; l + len <= 4; ++l) for (int kind = 0; kind < 3; ++kind) window<4>(rnd_seq(90, len, 1), l, kind, f);
}
int main(int argc, char** argv) {
	init(argc, argv);
	int reps = thorough() ? 400 : 30;
#if PART == 1
	everywhere(grow{501, 502, 503}, reps);
#elif PART == 2
	everywhere(shrink{501}, reps);
#else
	everywhere(shape{501}, reps);
#endif
	return done();
}
