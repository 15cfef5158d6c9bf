// Binary searches and partitions: every iterator category, functional, fit, in-place and range forms.
#include "conts.hpp"
#include <sprout/algorithm/lower_bound.hpp>
#include <sprout/algorithm/upper_bound.hpp>
#include <sprout/algorithm/equal_range.hpp>
#include <sprout/algorithm/binary_search.hpp>
#include <sprout/algorithm/partition_point.hpp>
#include <sprout/algorithm/is_partitioned.hpp>
#include <sprout/algorithm/partition.hpp>
#include <sprout/algorithm/partition_copy.hpp>
#include <sprout/algorithm/stable_partition.hpp>
#include <sprout/algorithm/stable_partition_copy.hpp>
#include <sprout/algorithm/gather.hpp>
#include <sprout/range/algorithm.hpp>
using namespace vf;

template<typename P> auto cut(V const& a, P const& p) -> decltype(p.first, V()) { typedef mk<typename std::decay<decltype(p.first)>::type> K; return V{int(K::raw(p.first) - a.data()), int(K::raw(p.second) - a.data())}; }
template<typename P> auto cut(V const& a, P const& p) -> decltype(p.begin(), V()) { typedef mk<typename std::decay<decltype(p.begin())>::type> K; return V{int(K::raw(p.begin()) - a.data()), int(K::raw(p.end()) - a.data())}; }
template<typename I, typename C> void bounds(V const& a, V const& vs, C c, bool dflt) {
	char const* n = C::name();
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size());
	sprout::range::range_container<I> rg(f, l);
#define POS(X) int(mk<I>::raw(X) - a.data())
#define RNG(X) cut(a, X)
	for (int v : vs) {
#define ONE(OP, W) \
	REC((#OP)("c", n)("a", a)("v", v), W(sprout::OP(f, l, v, c))); REC((#OP)("c", n)("a", a)("v", v), W(sprout::range::OP(rg, v, c))); \
	if (dflt) { REC((#OP)("c", n)("a", a)("v", v), W(sprout::OP(f, l, v))); REC((#OP)("c", n)("a", a)("v", v), W(sprout::range::OP(rg, v))); }
	ONE(lower_bound, POS) ONE(upper_bound, POS) ONE(equal_range, RNG) ONE(binary_search, bool)
#undef ONE
	}
}
template<typename I, typename U> void points(V const& a, U u) {
	char const* n = U::name();
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size());
	sprout::range::range_container<I> rg(f, l);
	REC(("is_partitioned")("u", n)("a", a), sprout::is_partitioned(f, l, u)); REC(("is_partitioned")("u", n)("a", a), sprout::range::is_partitioned(rg, u));
	V b(a); std::stable_partition(b.begin(), b.end(), u);
	I f2 = mk<I>::at(b.data(), 0), l2 = mk<I>::at(b.data(), (int)b.size());
	sprout::range::range_container<I> rg2(f2, l2);
	REC(("is_partitioned")("u", n)("a", b), sprout::is_partitioned(f2, l2, u));
	REC(("partition_point")("u", n)("a", b), int(mk<I>::raw(sprout::partition_point(f2, l2, u)) - b.data()));
	REC(("partition_point")("u", n)("a", b), int(mk<I>::raw(sprout::range::partition_point(rg2, u)) - b.data()));
}
template<typename U> struct Fun {
	U u;
	template<typename T> void operator()(T const& t) const {
		char const* n = U::name();
#define ONE(OP) FN((#OP)("u", n), t, sprout::OP(t, u)); FN(("fit_" #OP)("u", n), t, sprout::fit::OP(t, u));
		ONE(partition) ONE(stable_partition)
#undef ONE
	}
};
template<typename I, typename U> struct Into {
	V const& a; I f, l; U u;
	template<typename T> void operator()(T const& res) const {
		char const* n = U::name();
		sprout::range::range_container<I> rg(f, l);
#define ONE(OP) \
		FN((#OP)("u", n)("a", a), res, sprout::OP(f, l, res, u)); FN(("fit_" #OP)("u", n)("a", a), res, sprout::fit::OP(f, l, res, u)); \
		FN((#OP)("u", n)("a", a), res, sprout::range::fixed::OP(rg, res, u)); FN(("fit_" #OP)("u", n)("a", a), res, sprout::range::fit::OP(rg, res, u));
		ONE(partition_copy) ONE(stable_partition_copy)
#undef ONE
	}
};
template<typename I, typename U> void into(V const& a, U u, int salt) {
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size());
	Into<I, U> i{a, f, l, u};
	V fill(9); for (int k = 0; k < 9; ++k) fill[k] = 7001 + k;
	int m = salt % 8;
	whole(V(fill.begin(), fill.begin() + 1 + m), i);
	window<9>(V(fill.begin(), fill.begin() + salt % 7), salt % 3, salt, i);
	typedef sprout::array<int, 5> A; V none(5, 0);
	char const* n = U::name();
	{ Ev e("partition_copy"); e("u", n)("a", a)("w", none)("l", 0)("h", 5); after(e, snap(sprout::partition_copy<A>(f, l, u))).emit(); }
	{ Ev e("stable_partition_copy"); e("u", n)("a", a)("w", none)("l", 0)("h", 5); after(e, snap(sprout::stable_partition_copy<A>(f, l, u))).emit(); }
	{ Ev e("partition_copy2"); V t(a.size(), -1), g(a.size(), -1); auto p = sprout::partition_copy(f, l, t.data(), g.data(), u); t.resize(p.first - t.data()); g.resize(p.second - g.data()); e("u", n)("a", a)("t", t)("f", g).emit(); }
	{ Ev e("partition_copy2"); V t(a.size(), -1), g(a.size(), -1); auto p = sprout::range::partition_copy(sprout::range::range_container<I>(f, l), t.data(), g.data(), u); t.resize(p.first - t.data()); g.resize(p.second - g.data()); e("u", n)("a", a)("t", t)("f", g).emit(); }
}
#define AT(k) mmk<I>::at(x.data(), k)
#define INX(NAME, W, RES) { V x(W); Ev e_(NAME); e_("u", n)("w", x)("l", l)("h", h); auto q_ = RES; e_("r", x)("rl", l)("rh", h)("x", int(mmk<I>::raw(q_) - (x.data() + l))).emit(); }
template<typename I, typename U> void inpart(V const& v, U u, int pre, int post) {
	char const* n = U::name();
	V w(pre, -5); w.insert(w.end(), v.begin(), v.end()); w.insert(w.end(), post, -7);
	int l = pre, h = pre + (int)v.size();
	typedef sprout::range::range_container<I> R;
	INX("partition", w, sprout::partition(AT(l), AT(h), u)) INX("partition", w, sprout::range::partition(R(AT(l), AT(h)), u))
}
template<typename I, typename U> void instable(V const& v, U u, int pre, int post) {
	char const* n = U::name();
	V w(pre, -5); w.insert(w.end(), v.begin(), v.end()); w.insert(w.end(), post, -7);
	int l = pre, h = pre + (int)v.size();
	typedef sprout::range::range_container<I> R;
	INX("stable_partition", w, sprout::stable_partition(AT(l), AT(h), u)) INX("stable_partition", w, sprout::range::stable_partition(R(AT(l), AT(h)), u))
	for (int m = 0; m <= (int)v.size(); ++m) {
		V x(w); Ev e("gather"); e("u", n)("m", m)("w", x)("l", l)("h", h);
		auto p = m % 2 ? sprout::gather(AT(l), AT(h), AT(l + m), u) : sprout::range::gather(R(AT(l), AT(h)), AT(l + m), u);
		e("r", x)("rl", l)("rh", h)("x", V{int(mmk<I>::raw(p.first) - (x.data() + l)), int(mmk<I>::raw(p.second) - (x.data() + l))}).emit();
	}
}
void search(V k, int salt) {
	std::sort(k.begin(), k.end()); V t = tagged(k); V rk(k); std::reverse(rk.begin(), rk.end()); V rt = tagged(rk);
	V vs; for (int v = -1; v <= (k.empty() ? 0 : k.back() + 1) && v < 12; ++v) vs.push_back(v);
	V kv; for (int v : vs) kv.push_back(v < 0 ? -20 : v * 10 + salt % 10);
	tag() = "ra"; bounds<rai>(k, vs, c_lt(), true); bounds<rai>(t, kv, c_key(), false);
	tag() = "ptr"; bounds<int const*>(k, vs, c_lt(), true); bounds<int const*>(rt, kv, c_kgt(), false);
	tag() = "fwd"; bounds<fwd>(t, kv, c_key(), false); bounds<fwd>(k, vs, c_lt(), true);
	tag() = "bid"; bounds<bid>(rk, vs, c_gt(), false);
}
void parts(V const& k, int salt) {
	V v(k); for (auto& x : v) x = x % 2; V t = tagged(k);
	tag() = "ra"; points<rai>(t, u_odd()); points<rai>(t, u_key1());
	tag() = "ptr"; points<int const*>(t, u_key1());
	tag() = "fwd"; points<fwd>(t, u_key1()); points<fwd>(t, u_odd());
	tag() = "array"; whole(t, Fun<u_key1>{u_key1()}); if (salt % 2) whole(t, Fun<u_odd>{u_odd()});
	tag() = "window"; if (t.size() < 9) window<9>(t, salt % (10 - (int)t.size()), salt, Fun<u_key1>{u_key1()});
	tag() = "ra"; into<rai>(t, u_key1(), salt);
	if (salt % 3 == 0) { tag() = "fwd"; into<bid>(t, u_odd(), salt / 3); tag() = "ptr"; into<int const*>(t, u_key1(), salt / 3); }
	tag() = "ptr"; inpart<int*>(t, u_key1(), salt % 3, 1); instable<int*>(t, u_key1(), 1, salt % 2);
	tag() = "fwd"; inpart<mfwd>(t, u_key1(), 1, 1); tag() = "bid"; instable<mbid>(t, u_odd(), 0, 1);
	tag() = "ra"; inpart<mrai>(t, u_odd(), 1, 0); instable<mrai>(t, u_key1(), 1, 1);
}
int main(int argc, char** argv) {
	init(argc, argv);
	bool th = thorough();
	int salt = 0;
#if PART == 1
	auto nondec = [](V const& v) { for (std::size_t i = 1; i < v.size(); ++i) if (v[i] < v[i - 1]) return false; return true; };
	all_seqs(4, th ? 7 : 6, [&](V const& v) { if (nondec(v)) search(v, salt++); });
	for (int i = 0; i < (th ? 3000 : 300); ++i) search(rnd_seq(rnd(1, 12), rnd(5, 40)), salt++);
#else
	all_seqs(2, th ? 9 : 7, [&](V const& v) { parts(v, salt++); });
	for (int i = 0; i < (th ? 2000 : 250); ++i) { V v = rnd_seq(rnd(1, 4), rnd(5, 40)); parts(v, salt++); }
#endif
	return done();
}
