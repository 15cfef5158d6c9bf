// Non-modifying algorithms over every iterator category and through the range overloads.
#include "iters.hpp"
#include <sprout/algorithm/non_modifying.hpp>
#include <sprout/algorithm/searching.hpp>
#include <sprout/algorithm/clamp.hpp>
#include <sprout/algorithm/abs_diff.hpp>
#include <sprout/algorithm/fold_while.hpp>
#include <sprout/algorithm/fold_until.hpp>
#include <sprout/algorithm/min.hpp>
#include <sprout/algorithm/max.hpp>
#include <sprout/algorithm/minmax.hpp>
#include <sprout/range/algorithm/non_modifying.hpp>

using namespace vf;
typedef std::vector<int> V;

template<typename I> struct Ops {
	typedef sprout::range::range_container<I> R;
	V const& a; I f, l; R rg;
	explicit Ops(V const& a_) : a(a_), f(mk<I>::at(a.data(), 0)), l(mk<I>::at(a.data(), (int)a.size())), rg(f, l) {}
	int ix(I x) const { return int(mk<I>::raw(x) - a.data()); }
	static bool id(bool b) { return b; }

#define W(FIELDS, POST, NAME, ...) do { \
		REC(FIELDS, POST(sprout::NAME(f, l, ##__VA_ARGS__))); REC(FIELDS, POST(sprout::range::NAME(rg, ##__VA_ARGS__))); } while (0)
#define RET(FIELDS, NAME, ...) do { \
		auto fe = sprout::range::NAME<sprout::range::return_found_end>(rg, ##__VA_ARGS__); \
		auto bf = sprout::range::NAME<sprout::range::return_begin_found>(rg, ##__VA_ARGS__); \
		REC(FIELDS("fe", (V{ix(fe.begin()), ix(fe.end())}))("bf", (V{ix(bf.begin()), ix(bf.end())})), ix(sprout::NAME(f, l, ##__VA_ARGS__))); } while (0)

	template<typename U> void unary(U u) {
		char const* n = U::name();
		W(("all_of")("a", a)("u", n), id, all_of, u);
		W(("any_of")("a", a)("u", n), id, any_of, u);
		W(("none_of")("a", a)("u", n), id, none_of, u);
		W(("one_of")("a", a)("u", n), id, one_of, u);
		W(("find_if")("a", a)("u", n), ix, find_if, u);
		W(("find_if_not")("a", a)("u", n), ix, find_if_not, u);
		W(("count_if")("a", a)("u", n), int, count_if, u);
		RET(("find_if")("a", a)("u", n), find_if, u);
		RET(("find_if_not")("a", a)("u", n), find_if_not, u);
	}
	void value(int v) {
		W(("all_of_equal")("a", a)("v", v), id, all_of_equal, v);
		W(("any_of_equal")("a", a)("v", v), id, any_of_equal, v);
		W(("none_of_equal")("a", a)("v", v), id, none_of_equal, v);
		W(("one_of_equal")("a", a)("v", v), id, one_of_equal, v);
		W(("find")("a", a)("v", v), ix, find, v);
		W(("count")("a", a)("v", v), int, count, v);
		RET(("find")("a", a)("v", v), find, v);
	}
	void searchn(int n, int v) {
		W(("search_n")("a", a)("n", n)("v", v)("p", "eq"), ix, search_n, n, v);
		W(("search_n")("a", a)("n", n)("v", v)("p", "asym"), ix, search_n, n, v, p_asym());
		W(("search_n")("a", a)("n", n)("v", v)("p", "lt"), ix, search_n, n, v, p_lt());
		RET(("search_n")("a", a)("n", n)("v", v)("p", "eq"), search_n, n, v);
	}
	void self() {
		W(("adjacent_find")("a", a)("p", "eq"), ix, adjacent_find);
		W(("adjacent_find")("a", a)("p", "asym"), ix, adjacent_find, p_asym());
		W(("adjacent_find")("a", a)("p", "lt"), ix, adjacent_find, p_lt());
		W(("adjacent_find")("a", a)("p", "key"), ix, adjacent_find, p_key());
		RET(("adjacent_find")("a", a)("p", "eq"), adjacent_find);
		W(("is_increasing")("a", a), id, is_increasing);
		W(("is_decreasing")("a", a), id, is_decreasing);
		W(("is_strictly_increasing")("a", a), id, is_strictly_increasing);
		W(("is_strictly_decreasing")("a", a), id, is_strictly_decreasing);
		W(("min_element")("a", a)("c", "lt"), ix, min_element);
		W(("max_element")("a", a)("c", "lt"), ix, max_element);
		RET(("min_element")("a", a)("c", "lt"), min_element);
		RET(("max_element")("a", a)("c", "lt"), max_element);
		cmp(c_lt()); cmp(c_gt()); cmp(c_key()); cmp(c_kgt());
		REC(("minmax_element")("a", a)("c", "lt"), p2(sprout::minmax_element(f, l)));
		REC(("minmax_element")("a", a)("c", "lt"), p2(sprout::range::minmax_element(rg)));
		struct F { constexpr int operator()(int x, int y) const { return x * 2 + y; } };
		struct L { constexpr bool operator()(int x) const { return x < 9; } };
		struct G { constexpr bool operator()(int x) const { return x >= 9; } };
		REC(("fold_while")("a", a)("v", 1), sprout::fold_while(f, l, 1, F(), L()));
		REC(("fold_until")("a", a)("v", 1), sprout::fold_until(f, l, 1, F(), G()));
	}
	template<typename P> V p2(P const& p) const { return V{ix(p.first), ix(p.second)}; }
	template<typename C> void cmp(C c) {
		char const* n = C::name();
		W(("min_element")("a", a)("c", n), ix, min_element, c);
		W(("max_element")("a", a)("c", n), ix, max_element, c);
		RET(("min_element")("a", a)("c", n), min_element, c);
		REC(("minmax_element")("a", a)("c", n), p2(sprout::minmax_element(f, l, c)));
		REC(("minmax_element")("a", a)("c", n), p2(sprout::range::minmax_element(rg, c)));
	}
};
template<typename I, typename J> struct Ops2 : Ops<I> {
	typedef Ops<I> B; using B::a; using B::f; using B::l; using B::rg; using B::ix; using B::id;
	V const& b; J f2, l2; sprout::range::range_container<J> rg2;
	Ops2(V const& a_, V const& b_) : B(a_), b(b_), f2(mk<J>::at(b.data(), 0)), l2(mk<J>::at(b.data(), (int)b.size())), rg2(f2, l2) {}
	V pp(sprout::pair<I, J> const& p) const { return V{ix(p.first), int(mk<J>::raw(p.second) - b.data())}; }
#define W2(FIELDS, POST, NAME, ...) do { \
		REC(FIELDS, POST(sprout::NAME(f, l, f2, l2, ##__VA_ARGS__))); REC(FIELDS, POST(sprout::range::NAME(rg, rg2, ##__VA_ARGS__))); } while (0)
	template<typename P> void pr(P p) {
		char const* n = P::name();
		W2(("find_first_of")("a", a)("b", b)("p", n), ix, find_first_of, p);
		REC(("mismatch")("a", a)("b", b)("p", n), pp(sprout::mismatch(f, l, f2, l2, p)));
		REC(("equal")("a", a)("b", b)("p", n), id(sprout::equal(f, l, f2, l2, p)));
		if (b.size() >= a.size()) {
			REC(("mismatch3")("a", a)("b", b)("p", n), pp(sprout::mismatch(f, l, f2, p)));
			REC(("mismatch3")("a", a)("b", b)("p", n), pp(sprout::range::mismatch(rg, rg2, p)));
			REC(("equal3")("a", a)("b", b)("p", n), id(sprout::range::equal(rg, rg2, p)));
			REC(("equal3")("a", a)("b", b)("p", n), id(sprout::equal(f, l, f2, p)));
		}
	}
	void plain() {
		W2(("find_first_of")("a", a)("b", b)("p", "eq"), ix, find_first_of);
		REC(("mismatch")("a", a)("b", b)("p", "eq"), pp(sprout::mismatch(f, l, f2, l2)));
		REC(("equal")("a", a)("b", b)("p", "eq"), id(sprout::equal(f, l, f2, l2)));
		if (b.size() >= a.size()) {
			REC(("mismatch3")("a", a)("b", b)("p", "eq"), pp(sprout::mismatch(f, l, f2)));
			REC(("mismatch3")("a", a)("b", b)("p", "eq"), pp(sprout::range::mismatch(rg, rg2)));
			REC(("equal3")("a", a)("b", b)("p", "eq"), id(sprout::range::equal(rg, rg2)));
			REC(("equal3")("a", a)("b", b)("p", "eq"), id(sprout::equal(f, l, f2)));
		}
		W2(("lexicographical_compare")("a", a)("b", b)("c", "lt"), id, lexicographical_compare);
		W2(("tristate")("a", a)("b", b)("c", "lt"), int, tristate_lexicographical_compare);
		cmp(c_gt()); cmp(c_key());
		pr(p_asym()); pr(p_key());
	}
	template<typename C> void cmp(C c) {
		char const* n = C::name();
		W2(("lexicographical_compare")("a", a)("b", b)("c", n), id, lexicographical_compare, c);
		W2(("tristate")("a", a)("b", b)("c", n), int, tristate_lexicographical_compare, c);
	}
	void delim(int d1, int d2) {
		REC(("tristate_delim")("a", a)("b", b)("d", d1)("e", d2)("c", "lt"), sprout::tristate_lexicographical_compare(f, l, d1, f2, l2, d2));
		REC(("tristate_delim")("a", a)("b", b)("d", d1)("e", d2)("c", "gt"), sprout::tristate_lexicographical_compare(f, l, d1, f2, l2, d2, c_gt()));
	}
	template<typename P> void fwd_pr(P p) {
		char const* n = P::name();
		W2(("find_end")("a", a)("b", b)("p", n), ix, find_end, p);
		W2(("search")("a", a)("b", b)("p", n), ix, search, p);
		REC(("search")("a", a)("b", b)("p", n), ix(sprout::search(f, l, sprout::default_searcher<J, P>(f2, l2, p))));
	}
	void fwd_plain() {
		W2(("find_end")("a", a)("b", b)("p", "eq"), ix, find_end);
		W2(("search")("a", a)("b", b)("p", "eq"), ix, search);
		REC(("search")("a", a)("b", b)("p", "eq"), ix(sprout::search(f, l, sprout::default_searcher<J>(f2, l2))));
		fwd_pr(p_asym()); fwd_pr(p_key());
		REC(("is_permutation")("a", a)("b", b)("p", "eq"), id(sprout::is_permutation(f, l, f2, l2)));
		REC(("is_permutation")("a", a)("b", b)("p", "key"), id(sprout::is_permutation(f, l, f2, l2, p_key())));
		if (b.size() >= a.size()) {
			REC(("is_permutation3")("a", a)("b", b)("p", "eq"), id(sprout::is_permutation(f, l, f2)));
			REC(("is_permutation3")("a", a)("b", b)("p", "eq"), id(sprout::range::is_permutation(rg, rg2)));
			REC(("is_permutation3")("a", a)("b", b)("p", "key"), id(sprout::range::is_permutation(rg, rg2, p_key())));
			REC(("is_permutation3")("a", a)("b", b)("p", "key"), id(sprout::is_permutation(f, l, f2, p_key())));
		}
	}
};

template<typename I> void one(V const& a, bool forward) {
	Ops<I> o(a);
	o.unary(u_odd()); o.unary(u_zero()); o.unary(u_key1());
	for (int v = 0; v < 4; ++v) o.value(v);
	if (!a.empty()) o.value(a[a.size() / 2]);
	(void)forward;
}
template<typename I> void one_fwd(V const& a, std::vector<int> const& ns) {
	Ops<I> o(a);
	o.self();
	for (int n : ns) for (int v = 0; v < 2; ++v) o.searchn(n, v);
	if (!a.empty()) for (int n : ns) o.searchn(n, a.back());
}
template<typename I, typename J> void two(V const& a, V const& b) { Ops2<I, J> o(a, b); o.plain(); }
template<typename I, typename J> void two_fwd(V const& a, V const& b) { Ops2<I, J> o(a, b); o.fwd_plain(); }

void all1(V const& a, V const& ns) {
#if PART == 1
	tag() = "ra"; one<rai>(a, true);
	tag() = "ptr"; one<int const*>(a, true);
	tag() = "fwd"; one<fwd>(a, true);
	tag() = "in"; one<inp>(a, false);
	tag() = "bid"; one<bid>(a, false);
#elif PART == 2
	tag() = "ra"; one_fwd<rai>(a, ns);
	tag() = "ptr"; one_fwd<int const*>(a, ns);
	tag() = "fwd"; one_fwd<fwd>(a, ns);
	tag() = "bid"; one_fwd<bid>(a, ns);
#endif
}
void all2(V const& a, V const& b) {
#if PART == 3
	tag() = "ra"; two<rai, rai>(a, b);
	tag() = "ptr"; two<int const*, int const*>(a, b);
	tag() = "fwd"; two<fwd, fwd>(a, b);
	tag() = "in"; two<inp, inp>(a, b);
	tag() = "ra/fwd"; two<rai, fwd>(a, b);
	tag() = "fwd/ra"; two<fwd, rai>(a, b);
#elif PART == 4
	tag() = "ra"; two_fwd<rai, rai>(a, b);
	tag() = "ptr"; two_fwd<int const*, int const*>(a, b);
	tag() = "fwd"; two_fwd<fwd, fwd>(a, b);
	tag() = "bid"; two_fwd<bid, bid>(a, b);
	tag() = "ra/fwd"; two_fwd<rai, fwd>(a, b);
	tag() = "bid/fwd"; two_fwd<bid, fwd>(a, b);
#endif
}
void delims(V const& a, V const& b) {
#if PART == 3
	for (int d1 = 0; d1 < 2; ++d1) for (int d2 = 0; d2 < 2; ++d2) {
		tag() = "ra"; Ops2<rai, rai>(a, b).delim(d1, d2);
		tag() = "ptr"; Ops2<int const*, int const*>(a, b).delim(d1, d2);
		tag() = "fwd"; Ops2<fwd, fwd>(a, b).delim(d1, d2);
	}
#endif
}

#if PART == 2
template<typename T, T... X> void ilist() {
	V a{X...};
	tag() = "ilist";
	REC(("min")("a", a)("c", "lt"), sprout::min({X...})); REC(("max")("a", a)("c", "lt"), sprout::max({X...}));
	REC(("min")("a", a)("c", "key"), sprout::min({X...}, c_key())); REC(("max")("a", a)("c", "key"), sprout::max({X...}, c_key()));
	REC(("min")("a", a)("c", "gt"), sprout::min({X...}, c_gt())); REC(("max")("a", a)("c", "gt"), sprout::max({X...}, c_gt()));
	{ auto m = sprout::minmax({X...}); REC(("minmax")("a", a)("c", "lt"), (V{m.first, m.second})); }
	{ auto m = sprout::minmax({X...}, c_key()); REC(("minmax")("a", a)("c", "key"), (V{m.first, m.second})); }
	{ auto m = sprout::minmax({X...}, c_gt()); REC(("minmax")("a", a)("c", "gt"), (V{m.first, m.second})); }
}
template<typename C> void scalars(C c, int hi) {
	char const* n = C::name();
	tag() = "scalar";
	for (int x = 0; x < hi; ++x) for (int y = 0; y < hi; ++y) {
		V a{x, y};
		REC(("min")("a", a)("c", n), sprout::min(x, y, c)); REC(("max")("a", a)("c", n), sprout::max(x, y, c));
		{ auto m = sprout::minmax(x, y, c); REC(("minmax")("a", a)("c", n), (V{m.first, m.second})); }
		if (std::string(n) == "lt") {
			REC(("min")("a", a)("c", n), sprout::min(x, y)); REC(("max")("a", a)("c", n), sprout::max(x, y));
			{ auto m = sprout::minmax(x, y); REC(("minmax")("a", a)("c", n), (V{m.first, m.second})); }
			REC(("abs_diff")("x", x)("y", y), sprout::abs_diff(x, y));
		}
		for (int z = 0; z < hi; ++z) if (!c(y, x)) {
			REC(("clamp")("v", z)("l", x)("h", y)("c", n), sprout::clamp(z, x, y, c));
			if (std::string(n) == "lt") REC(("clamp")("v", z)("l", x)("h", y)("c", n), sprout::clamp(z, x, y));
		}
	}
}
#endif

int main(int argc, char** argv) {
	init(argc, argv);
	bool th = thorough();
	V ns{0, 1, 2, 3, 4, 5};
	all_seqs(3, th ? 6 : 5, [&](V const& a) { all1(a, ns); });
	all_seqs(2, th ? 10 : 8, [&](V const& a) { all1(a, ns); }, 6);
	for (int i = 0; i < (th ? 400 : 60); ++i) {
		V k = rnd_seq(rnd(1, 4), rnd(0, 40));
		all1(k, V{0, 1, 2, 3, 5, 8, 13}); all1(tagged(k, i), V{1, 2});
		if (i % 10 == 0) { V g = rnd_seq(3, rnd(100, 600)); all1(g, V{2, 4, 6}); }
	}
	// runs: long searches with the match at every position
	for (int n = 0; n <= 20; ++n) for (int pos = 0; pos < n; ++pos) {
		V a(n, 0); a[pos] = 1; all1(a, V{1, n, n - 1, n - pos - 1, pos});
		V b(n, 1); for (int i = pos; i < n; ++i) b[i] = 0; all1(b, V{pos, n - pos});
	}
	all_seqs(2, 4, [&](V const& a) { all_seqs(2, 4, [&](V const& b) { all2(a, b); all2(tagged(a), tagged(b, 3)); }); });
	all_seqs(3, th ? 4 : 3, [&](V const& a) { all_seqs(3, th ? 4 : 3, [&](V const& b) { all2(a, b); }); });
	all_seqs(2, th ? 9 : 7, [&](V const& a) { all_seqs(2, 3, [&](V const& b) { all2(a, b); }); }, 5);
	for (int n = 0; n <= 4; ++n) all_seqs(3, n, [&](V const& a) { all_seqs(3, n, [&](V const& b) { delims(a, b); }, n); }, n);
	for (int i = 0; i < (th ? 1500 : 200); ++i) {
		int k = rnd(1, 3);
		V a = rnd_seq(k, rnd(0, 30)), b;
		switch (rnd(0, 5)) {
		case 0: b = rnd_seq(k, rnd(0, 30)); break;
		case 1: b = a; std::shuffle(b.begin(), b.end(), rng()); break;
		case 2: { int n = (int)a.size(), lo = rnd(0, n), hi = rnd(lo, n); b.assign(a.begin() + lo, a.begin() + hi); break; }
		case 3: b = a; if (!b.empty()) b[rnd(0, (int)b.size() - 1)] ^= 1; break;
		case 4: b = a; b.resize(rnd(0, 35)); break;
		default: b = rnd_seq(k, rnd(1, 4)); break;
		}
		all2(a, b); all2(b, a);
		if (i % 4 == 0) all2(tagged(a), tagged(b, 1));
	}
#if PART == 2
	scalars(c_lt(), 4); scalars(c_gt(), 4); scalars(c_key(), 25);
	ilist<int, 5>(); ilist<int, 1, 2>(); ilist<int, 2, 1>(); ilist<int, 10, 11, 12>(); ilist<int, 30, 10, 20, 11, 31>(); ilist<int, 22, 21, 20, 10, 11, 12, 30>();
#endif
	return done();
}
