// C19: iterator adaptors.
#include "itwalk.hpp"
#include <sprout/array.hpp>
#include <sprout/string.hpp>
#include <sprout/iterator.hpp>
#include <sprout/iterator/various.hpp>
#include <sprout/iterator/clamp_iterator.hpp>
#include <sprout/iterator/ptr_index_iterator.hpp>
#include <sprout/iterator/index_iterator.hpp>
#include <sprout/iterator/value_iterator.hpp>
#include <sprout/iterator/set_union_iterator.hpp>
#include <sprout/iterator/set_intersection_iterator.hpp>
#include <sprout/iterator/set_difference_iterator.hpp>
#include <sprout/iterator/set_symmetric_difference_iterator.hpp>
#include <sprout/iterator/merge_iterator.hpp>
#include <sprout/iterator/insert_range_iterator.hpp>
#include <sprout/iterator/remake_iterator.hpp>
#include <sprout/iterator/size_enum_iterator.hpp>
#include <sprout/iterator/bytes_iterator.hpp>
#include <sprout/iterator/while_iterator.hpp>
#include <sprout/iterator/generator_iterator.hpp>
#include <sprout/iterator/next_iterator.hpp>
#include <sprout/iterator/valued_iterator.hpp>
#include <sprout/iterator/move_iterator.hpp>
#include <sprout/iterator/to_lower_iterator.hpp>
#include <sprout/iterator/to_upper_iterator.hpp>
#ifndef PART
#define PART 1
#endif
using vf::V; using vf::Ev; using vf::FWD; using vf::BID; using vf::RA; using vf::observe;
struct odd { SPROUT_CONSTEXPR bool operator()(int x) const { return x % 2 != 0; } };
struct par { SPROUT_CONSTEXPR bool operator()(int x, int y) const { return (x - y) % 2 == 0; } };
struct lt { SPROUT_CONSTEXPR bool operator()(int x, int y) const { return x < y; } };
struct gt { SPROUT_CONSTEXPR bool operator()(int x, int y) const { return x > y; } };
struct fun { SPROUT_CONSTEXPR int operator()(int x) const { return 2 * x + 1; } };
struct sub_half { SPROUT_CONSTEXPR int operator()(int x) const { return x + x / 3; } };
struct sub { SPROUT_CONSTEXPR int operator()(int x, int y) const { return x - y; } };
struct Put { const char* k; V a, b; int x, y; Put(const char* k_, V const& a_, V const& b_ = V(), int x_ = 0, int y_ = 0) : k(k_), a(a_), b(b_), x(x_), y(y_) {} void operator()(Ev& e) const { e("k", k)("a", a)("b", b)("x", x)("y", y); } };

// the base iterators, by category
typedef int const* P;
typedef vf::fwd F; typedef vf::bid B; typedef sprout::ptr_index_iterator<int const> X;
template<typename I> struct at_;
template<> struct at_<P> { static P f(V const& a, int i) { return a.data() + i; } static const int cat = RA; };
template<> struct at_<F> { static F f(V const& a, int i) { return F(a.data() + i); } static const int cat = FWD; };
template<> struct at_<B> { static B f(V const& a, int i) { return B(a.data() + i); } static const int cat = BID; };
template<> struct at_<X> { static X f(V const& a, int i) { return X(a.data(), i); } static const int cat = RA; };
constexpr int cmin(int a, int b) { return a < b ? a : b; }
#define OBS(CAT, PUT, B_, E_) observe<CAT>(Put PUT, B_, E_)

#if PART == 1
template<typename I> void one(V const& a, int x, int y) {
	I f = at_<I>::f(a, 0), l = at_<I>::f(a, int(a.size())); const int C = at_<I>::cat; const int CB = cmin(C, BID); (void)CB;
	OBS(C, ("same", a), f, l);
	OBS(C, ("transform", a), sprout::make_transform_iterator(f, fun()), sprout::make_transform_iterator(l, fun()));
	OBS(CB, ("filter", a), sprout::make_filter_iterator(odd(), f, l), sprout::make_filter_iterator(odd(), l, l));
	OBS(CB, ("remove", a, V(), x), sprout::make_remove_iterator(x, f, l), sprout::make_remove_iterator(x, l, l));
	OBS(CB, ("remove_if", a), sprout::make_remove_if_iterator(odd(), f, l), sprout::make_remove_if_iterator(odd(), l, l));
	OBS(C, ("replace", a, V(), x, y), sprout::make_replace_iterator(f, x, y), sprout::make_replace_iterator(l, x, y));
	OBS(C, ("replace_if", a, V(), 0, y), sprout::make_replace_if_iterator(f, odd(), y), sprout::make_replace_if_iterator(l, odd(), y));
	OBS(FWD, ("unique", a), sprout::make_unique_iterator(f, l), sprout::make_unique_iterator(l, l));
	OBS(FWD, ("unique_par", a), sprout::make_unique_iterator(par(), f, l), sprout::make_unique_iterator(par(), l, l));
	OBS(FWD, ("adjacent", a), sprout::make_adjacent_filter_iterator(lt(), f, l), sprout::make_adjacent_filter_iterator(lt(), l, l));
	OBS(C, ("clamp", a, V(), cmin(x, y), x < y ? y : x), sprout::make_clamp_iterator(f, cmin(x, y), x < y ? y : x), sprout::make_clamp_iterator(l, cmin(x, y), x < y ? y : x));
	OBS(C, ("clamp", a, V(), cmin(x, y), x < y ? y : x), sprout::make_clamp_iterator(f, cmin(x, y), x < y ? y : x, lt()), sprout::make_clamp_iterator(l, cmin(x, y), x < y ? y : x, lt()));
	OBS(C, ("same", a), sprout::make_indexed_iterator(f), sprout::make_indexed_iterator(l, a.size()));
	OBS(C, ("same", a), sprout::make_valued_iterator(f, x), sprout::make_valued_iterator(l, x));
	OBS(FWD, ("while", a), sprout::make_while_iterator(odd(), f, l), sprout::make_while_iterator(odd(), l, l));
	OBS(cmin(C, BID), ("filter_tr", a), sprout::make_filter_iterator(odd(), sprout::make_transform_iterator(f, sub_half()), sprout::make_transform_iterator(l, sub_half())), sprout::make_filter_iterator(odd(), sprout::make_transform_iterator(l, sub_half()), sprout::make_transform_iterator(l, sub_half())));
}
template<typename I> void bidi(V const& a) {
	I f = at_<I>::f(a, 0), l = at_<I>::f(a, int(a.size())); const int C = at_<I>::cat;
	OBS(C, ("reverse", a), sprout::make_reverse_iterator(l), sprout::make_reverse_iterator(f));
	OBS(C, ("same", a), sprout::make_reverse_iterator(sprout::make_reverse_iterator(f)), sprout::make_reverse_iterator(sprout::make_reverse_iterator(l)));
	OBS(BID, ("revfilter", a), sprout::make_reverse_iterator(sprout::make_filter_iterator(odd(), l, l)), sprout::make_reverse_iterator(sprout::make_filter_iterator(odd(), f, l)));
	OBS(BID, ("revfilter", a), sprout::make_filter_iterator(odd(), sprout::make_reverse_iterator(l), sprout::make_reverse_iterator(f)), sprout::make_filter_iterator(odd(), sprout::make_reverse_iterator(f), sprout::make_reverse_iterator(f)));
	OBS(C, ("revtrans", a), sprout::make_reverse_iterator(sprout::make_transform_iterator(l, fun())), sprout::make_reverse_iterator(sprout::make_transform_iterator(f, fun())));
}
#endif
#if PART == 2
template<typename I, typename J, int C> void joint3(I, I, J, J, V const&, V const&, std::integral_constant<int, C>, std::true_type) {} // the three-argument forms need two types
template<typename I, typename J, int C> void joint3(I f, I l, J g, J m, V const& a, V const& b, std::integral_constant<int, C>, std::false_type) { OBS(C, ("joint", a, b), sprout::make_joint_iterator(f, l, g), sprout::make_joint_iterator(l, g, m)); }
template<typename I, typename J> void two(V const& a, V const& b) {
	I f = at_<I>::f(a, 0), l = at_<I>::f(a, int(a.size())); J g = at_<J>::f(b, 0), m = at_<J>::f(b, int(b.size())); const int C = cmin(at_<I>::cat, at_<J>::cat);
	joint3(f, l, g, m, a, b, std::integral_constant<int, C>(), std::is_same<I, J>());
	OBS(C, ("joint", a, b), sprout::make_joint_iterator(f, l, g, g), sprout::make_joint_iterator(l, l, g, m));
	if (a.size() == b.size()) {
		OBS(C, ("alternate", a, b), sprout::make_alternate_iterator(f, g), sprout::make_alternate_iterator(l, m));
		OBS(C, ("transform2", a, b), sprout::make_transform_iterator(f, g, sub()), sprout::make_transform_iterator(l, m, sub()));
	}
}
template<typename I, typename J> void sets(V a, V b) {
	for (int d = 0; d < 2; ++d) {
		if (d) { std::reverse(a.begin(), a.end()); std::reverse(b.begin(), b.end()); }
		I f = at_<I>::f(a, 0), l = at_<I>::f(a, int(a.size())); J g = at_<J>::f(b, 0), m = at_<J>::f(b, int(b.size()));
#define SETOP(NAME, CAT) \
		if (d) OBS(CAT, (#NAME, a, b, 1), sprout::make_##NAME##_iterator(f, l, g, m, gt()), sprout::make_##NAME##_iterator(l, l, m, m, gt())); \
		else { OBS(CAT, (#NAME, a, b, 0), sprout::make_##NAME##_iterator(f, l, g, m), sprout::make_##NAME##_iterator(l, l, m, m)); \
			OBS(CAT, (#NAME, a, b, 0), sprout::make_##NAME##_iterator(f, l, g, m, lt()), sprout::make_##NAME##_iterator(l, l, m, m, lt())); }
		SETOP(merge, FWD) SETOP(set_union, FWD) SETOP(set_intersection, FWD) SETOP(set_difference, FWD) SETOP(set_symmetric_difference, FWD)
	}
}
template<typename I> void ins(V const& a, V const& b, int pos) {
	I f = at_<I>::f(a, 0), l = at_<I>::f(a, int(a.size())), q = at_<I>::f(a, pos); P g = b.data(), m = b.data() + b.size(); const int C = at_<I>::cat;
	OBS(C, ("insert", a, b, pos), sprout::make_insert_range_iterator(f, q, g, g, m), sprout::make_insert_range_iterator(l, q, m, g, m));
}
#endif
#if PART == 3
struct gen { int s; SPROUT_CONSTEXPR gen(int x = 0) : s(x) {} SPROUT_CONSTEXPR int generated_value() const { return s; } SPROUT_CONSTEXPR gen const& next_generator() const { return *this; } SPROUT_CONSTEXPR gen operator()() const { return gen(s + 3); } };
template<typename I> void steps(V const& a, int w, int init) {
	int n = int(a.size()); I f = at_<I>::f(a, init), l = at_<I>::f(a, n); const int C = at_<I>::cat; (void)C;
	typedef sprout::step_iterator<I> S;
	V t(a.begin() + init, a.end()); int c = (int(t.size()) + w - 1) / w;
	S b(f, w, l), e = sprout::next(b, c);
	OBS(C, ("step", t, V(), w), b, e);
	OBS(FWD, ("step", t, V(), w), b, S(l, w, l));
}
template<std::size_t N> void conts(V const& v) {
	sprout::array<int, N> a; for (std::size_t i = 0; i < N; ++i) a[i] = v[i];
	sprout::array<int, N> const& c = a;
	typedef sprout::index_iterator<sprout::array<int, N>&> M; typedef sprout::index_iterator<sprout::array<int, N> const&> K; typedef sprout::index_iterator<sprout::array<int, N> const> O;
	OBS(RA, ("same", v), M(a, 0), M(a, N)); OBS(RA, ("same", v), M(a), M(a, N)); OBS(RA, ("same", v), K(c, 0), K(c, N)); OBS(RA, ("same", v), K(M(a, 0)), K(M(a, N))); OBS(RA, ("same", v), O(c, 0), O(c, N));
	OBS(RA, ("same", v), sprout::make_ptr_index_iterator(v.data()), sprout::make_ptr_index_iterator(v.data(), N));
	OBS(RA, ("same", v), sprout::ptr_index_iterator<int>(const_cast<int*>(v.data()), 0), sprout::ptr_index_iterator<int>(const_cast<int*>(v.data()), N));
	{ M i(a, 0); i[N - 1] = 77; *i = 78; V w(v); w[N - 1] = 77; w[0] = 78; OBS(RA, ("same", w), c.begin(), c.end()); OBS(RA, ("same", w), sprout::make_move_iterator(a.begin()), sprout::make_move_iterator(a.end())); }
}
// conversions between the mutable and the constant form of an iterator, checked by what they read afterwards
template<typename MI, typename CI> void conv(const char* k, V const& a, V const& b, int x, int y, MI f, MI l) { CI g(f), m(l); CI h; h = CI(f); Put p(k, a, b, x, y); observe<FWD>(p, g, m); observe<FWD>(p, h, m); }
#endif

int main(int ac, char** av) {
	vf::init(ac, av); int rep = vf::thorough() ? 40 : 4; using vf::rnd;
#if PART == 1
	for (int n = 0; n <= 5; ++n) for (int r = 0; r < rep * 2; ++r) {
		V a; for (int i = 0; i < n; ++i) a.push_back(rnd(0, r % 2 ? 3 : 9)); int x = rnd(0, 4), y = rnd(0, 4);
		one<P>(a, x, y); one<B>(a, x, y); one<F>(a, x, y); if (r % 2) one<X>(a, x, y);
		bidi<P>(a); bidi<B>(a); if (r % 2) bidi<X>(a);
	}
	for (int k = 0; k < 1 << 5; ++k) for (int n = 0; n <= 5; ++n) { V a; for (int i = 0; i < n; ++i) a.push_back((k >> i) & 1); // every pattern, short observation
		OBS(BID, ("filter", a), sprout::make_filter_iterator(odd(), a.data(), a.data() + n), sprout::make_filter_iterator(odd(), a.data() + n, a.data() + n));
		OBS(FWD, ("unique", a), sprout::make_unique_iterator(a.data(), a.data() + n), sprout::make_unique_iterator(a.data() + n, a.data() + n)); }
#elif PART == 2
	for (int n = 0; n <= 4; ++n) for (int m = 0; m <= 4; ++m) for (int r = 0; r < rep; ++r) {
		V a, b; for (int i = 0; i < n; ++i) a.push_back(rnd(0, 9)); for (int i = 0; i < m; ++i) b.push_back(rnd(10, 19));
		two<P, P>(a, b); two<B, B>(a, b); two<F, F>(a, b); two<X, X>(a, b); if (r % 2) { two<X, P>(a, b); two<B, P>(a, b); two<P, F>(a, b); }
		for (int p = 0; p <= n; ++p) { ins<P>(a, b, p); if (r == 0) { ins<X>(a, b, p); } }
		V s(a), t(b); for (int& z : t) z -= 10; for (int& z : s) z %= 1 + r % 10; for (int& z : t) z %= 1 + r % 7; std::sort(s.begin(), s.end()); std::sort(t.begin(), t.end());
		sets<P, P>(s, t); sets<F, F>(s, t); sets<B, P>(s, t);
	}
#else
	for (int n = 0; n <= 7; ++n) for (int w = 1; w <= 4; ++w) for (int i = 0; i <= n && i < 3; ++i) { V a; for (int k = 0; k < n; ++k) a.push_back(rnd(0, 9)); steps<P>(a, w, i); steps<X>(a, w, i); steps<B>(a, w, i); steps<F>(a, w, i); }
	for (int r = 0; r < rep; ++r) {
		{ V v{rnd(0, 9)}; conts<1>(v); } { V v{rnd(0, 9), rnd(0, 9), rnd(0, 9)}; conts<3>(v); } { V v{rnd(0, 9), rnd(0, 9), rnd(0, 9), rnd(0, 9), rnd(0, 9)}; conts<5>(v); }
		int lo = rnd(-3, 3), n = rnd(0, 6);
		OBS(RA, ("count", V(), V(), lo, n), sprout::make_counting_iterator(lo), sprout::make_counting_iterator(lo + n));
		typedef sprout::value_iterator<int const&> VI; int val = rnd(0, 99); OBS(RA, ("repeat", V(), V(), val, n), VI(val, n), VI(val, 0));
		typedef sprout::value_iterator<int> VJ; OBS(RA, ("repeat", V(), V(), val, n), VJ(val, n), VJ(val, 0));
		typedef sprout::generator_iterator<gen> GI; OBS(FWD, ("generate", V(), V(), lo, n), GI(gen(lo), n), GI(gen(lo), 0));
		V a; for (int k = 0; k < n; ++k) a.push_back(rnd(0, 9));
		int* f = a.data(); int* l = f + n; int x = 4, y = 2;
		conv<sprout::reverse_iterator<int*>, sprout::reverse_iterator<P> >("reverse", a, V(), 0, 0, sprout::make_reverse_iterator(l), sprout::make_reverse_iterator(f));
		conv<sprout::transform_iterator<fun, int*>, sprout::transform_iterator<fun, P> >("transform", a, V(), 0, 0, sprout::make_transform_iterator(f, fun()), sprout::make_transform_iterator(l, fun()));
		conv<sprout::filter_iterator<odd, int*>, sprout::filter_iterator<odd, P> >("filter", a, V(), 0, 0, sprout::make_filter_iterator(odd(), f, l), sprout::make_filter_iterator(odd(), l, l));
		conv<sprout::adjacent_filter_iterator<lt, int*>, sprout::adjacent_filter_iterator<lt, P> >("adjacent", a, V(), 0, 0, sprout::make_adjacent_filter_iterator(lt(), f, l), sprout::make_adjacent_filter_iterator(lt(), l, l));
		conv<sprout::while_iterator<odd, int*>, sprout::while_iterator<odd, P> >("while", a, V(), 0, 0, sprout::make_while_iterator(odd(), f, l), sprout::make_while_iterator(odd(), l, l));
		conv<sprout::clamp_iterator<int*, lt>, sprout::clamp_iterator<P, lt> >("clamp", a, V(), 2, 4, sprout::make_clamp_iterator(f, y, x, lt()), sprout::make_clamp_iterator(l, y, x, lt()));
		conv<sprout::indexed_iterator<int*>, sprout::indexed_iterator<P> >("same", a, V(), 0, 0, sprout::make_indexed_iterator(f), sprout::make_indexed_iterator(l));
		conv<sprout::step_iterator<int*>, sprout::step_iterator<P> >("step", a, V(), 2, 0, sprout::step_iterator<int*>(f, 2, l), sprout::step_iterator<int*>(l, 2, l));
		conv<sprout::valued_iterator<int*, int>, sprout::valued_iterator<P, int> >("same", a, V(), 0, 0, sprout::make_valued_iterator(f, 3), sprout::make_valued_iterator(l, 3));
		conv<sprout::move_iterator<int*>, sprout::move_iterator<P> >("same", a, V(), 0, 0, sprout::make_move_iterator(f), sprout::make_move_iterator(l));
		conv<sprout::ptr_index_iterator<int>, sprout::ptr_index_iterator<int const> >("same", a, V(), 0, 0, sprout::make_ptr_index_iterator(f), sprout::make_ptr_index_iterator(f, n));
		V b; for (int k = 0; k < n; ++k) b.push_back(rnd(10, 19)); int* g = b.data(); int* m = g + n;
		conv<sprout::joint_iterator<int*, int*>, sprout::joint_iterator<P, P> >("joint", a, b, 0, 0, sprout::make_joint_iterator(f, l, g, g), sprout::make_joint_iterator(l, l, g, m));
		conv<sprout::alternate_iterator<int*, int*>, sprout::alternate_iterator<P, P> >("alternate", a, b, 0, 0, sprout::make_alternate_iterator(f, g), sprout::make_alternate_iterator(l, m));
		V s(a), t(b); for (int& z : t) z -= 10; std::sort(s.begin(), s.end()); std::sort(t.begin(), t.end()); f = s.data(); l = f + n; g = t.data(); m = g + n;
#define CSET(NAME) conv<sprout::NAME##_iterator<int*, int*, lt>, sprout::NAME##_iterator<P, P, lt> >(#NAME, s, t, 0, 0, sprout::make_##NAME##_iterator(f, l, g, m, lt()), sprout::make_##NAME##_iterator(l, l, m, m, lt()));
		CSET(merge) CSET(set_union) CSET(set_intersection) CSET(set_difference) CSET(set_symmetric_difference)
		// sizes of ranges, bytes, next, indexes, values, letter case
		std::vector<sprout::array<int, 2> > rr(n); { V two(n, 2); OBS(RA, ("same", two), sprout::make_size_enum_iterator(rr.data()), sprout::make_size_enum_iterator(rr.data() + n)); }
		{ std::vector<sprout::string<4> > ss; V sz, sp; for (int k = 0; k < n; ++k) { int c = rnd(0, 4); ss.push_back(sprout::string<4>(std::string(c, 'x').c_str())); sz.push_back(c); }
		  sprout::string<4> const* q = ss.data(); OBS(RA, ("same", sz), sprout::make_size_enum_iterator(q), sprout::make_size_enum_iterator(q + n)); }
		std::vector<unsigned> words; V by, le; for (int k = 0; k < n && k < 3; ++k) { unsigned z = unsigned(vf::rnd64()); words.push_back(z); for (int j = 0; j < 4; ++j) { by.push_back((z >> (24 - 8 * j)) & 255); le.push_back((z >> (8 * j)) & 255); } }
		{ unsigned const* q = words.data(); int c = int(words.size());
		  if (c < 3) { OBS(RA, ("same", by), sprout::make_big_bytes_iterator(q), sprout::make_big_bytes_iterator(q + c)); OBS(RA, ("same", le), sprout::make_little_bytes_iterator(q), sprout::make_little_bytes_iterator(q + c)); }
		  else { OBS(BID, ("same", by), sprout::make_big_bytes_iterator(q), sprout::make_big_bytes_iterator(q + c)); OBS(RA, ("same", le), sprout::make_little_bytes_iterator(q), sprout::make_little_bytes_iterator(q + c)); } }
		{ Ev e("ix"); V ix, rd; sprout::indexed_iterator<P> i(a.data()), e2(a.data() + n, n); for (; i != e2; ++i) { ix.push_back(int(i.index())); } ix.push_back(int(i.index())); for (; i.index() > 0; --i) rd.push_back(int(i.index())); sprout::indexed_iterator<P> h = sprout::indexed_iterator<P>(a.data(), 5) + n; ix.push_back(int(h.index())); h -= n; ix.push_back(int(h.index())); e("n", n)("ix", ix)("rd", rd); e.emit(); }
		{ Ev e("chars"); std::string txt; for (int k = 0; k < n; ++k) txt.push_back(char(rnd(32, 126))); V in(txt.begin(), txt.end()), lo2, up; char const* q = txt.data();
		  for (auto i = sprout::make_to_lower_iterator(q); i != sprout::make_to_lower_iterator(q + n); ++i) lo2.push_back(*i);
		  for (auto i = sprout::make_to_upper_iterator(q); i != sprout::make_to_upper_iterator(q + n); ++i) up.push_back(*i);
		  e("a", in)("lo", lo2)("up", up); e.emit(); }
	}
#endif
	return vf::done();
}
