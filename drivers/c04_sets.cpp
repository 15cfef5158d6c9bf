// Sorted-range operations: functional, fit, in-place (output iterator), range forms, lazy iterators and adaptors.
#include "conts.hpp"
#include <sprout/algorithm/merge.hpp>
#include <sprout/algorithm/inplace_merge.hpp>
#include <sprout/algorithm/set_union.hpp>
#include <sprout/algorithm/set_intersection.hpp>
#include <sprout/algorithm/set_difference.hpp>
#include <sprout/algorithm/set_symmetric_difference.hpp>
#include <sprout/algorithm/includes.hpp>
#include <sprout/algorithm/find_intersection.hpp>
#include <sprout/algorithm/find_difference.hpp>
#include <sprout/algorithm/find_symmetric_difference.hpp>
#include <sprout/range/algorithm.hpp>
#include <sprout/iterator/merge_iterator.hpp>
#include <sprout/iterator/set_union_iterator.hpp>
#include <sprout/iterator/set_intersection_iterator.hpp>
#include <sprout/iterator/set_difference_iterator.hpp>
#include <sprout/iterator/set_symmetric_difference_iterator.hpp>
#include <sprout/range/adaptor/merged.hpp>
#include <sprout/range/adaptor/set_union.hpp>
#include <sprout/range/adaptor/set_intersection.hpp>
#include <sprout/range/adaptor/set_difference.hpp>
#include <sprout/range/adaptor/set_symmetric_difference.hpp>
using namespace vf;

template<typename It> V walk(It f, It l) { V r; for (int g = 0; f != l && g < 200; ++f, ++g) r.push_back(*f); return r; }
template<typename It> V walkn(It f, It l) { V r; for (int g = 0; f != l && g < 200; f = sprout::next(f), ++g) r.push_back(*f); return r; }
template<typename It> V walkp(It f, It l) { V r; for (int g = 0; f != l && g < 200; ++g) r.push_back(*f++); return r; }

#define OP4(M) M(merge) M(set_union) M(set_intersection) M(set_difference) M(set_symmetric_difference)
template<typename I, typename J, typename C> struct Into {
	V const& a; V const& b; I f1, l1; J f2, l2; C c; bool dflt;
	template<typename T> void operator()(T const& res) const {
		char const* n = C::name();
		typedef sprout::range::range_container<I> R1; typedef sprout::range::range_container<J> R2;
#define ONE(OP) \
		FN(("fixed")("op", #OP)("c", n)("a", a)("b", b), res, sprout::OP(f1, l1, f2, l2, res, c)); \
		FN(("fit")("op", #OP)("c", n)("a", a)("b", b), res, sprout::fit::OP(f1, l1, f2, l2, res, c)); \
		FN(("fixed")("op", #OP)("c", n)("a", a)("b", b), res, sprout::range::fixed::OP(R1(f1, l1), R2(f2, l2), res, c)); \
		FN(("fit")("op", #OP)("c", n)("a", a)("b", b), res, sprout::range::fit::OP(R1(f1, l1), R2(f2, l2), res, c)); \
		if (dflt) { \
			FN(("fixed")("op", #OP)("c", n)("a", a)("b", b), res, sprout::OP(f1, l1, f2, l2, res)); \
			FN(("fit")("op", #OP)("c", n)("a", a)("b", b), res, sprout::fit::OP(f1, l1, f2, l2, res)); \
			FN(("fit")("op", #OP)("c", n)("a", a)("b", b), res, sprout::range::fit::OP(R1(f1, l1), R2(f2, l2), res)); \
		}
		OP4(ONE)
#undef ONE
	}
};
template<typename I, typename J, typename C> void all(V const& a, V const& b, C c, bool dflt, int salt) {
	char const* n = C::name();
	I f1 = mk<I>::at(a.data(), 0), l1 = mk<I>::at(a.data(), (int)a.size());
	J f2 = mk<J>::at(b.data(), 0), l2 = mk<J>::at(b.data(), (int)b.size());
	typedef sprout::range::range_container<I> R1; typedef sprout::range::range_container<J> R2;
	R1 r1(f1, l1); R2 r2(f2, l2);
#if PART == 1
	Into<I, J, C> into{a, b, f1, l1, f2, l2, c, dflt};
	V fill(9); for (int i = 0; i < 9; ++i) fill[i] = 7001 + i;
	switch (salt % 4) {
	case 0: into(arr<1>(fill)); into(arr<9>(fill)); break; case 1: into(arr<3>(fill)); into(arr<7>(fill)); break;
	case 2: into(arr<4>(fill)); into(arr<9>(fill)); break; default: into(arr<2>(fill)); into(arr<5>(fill)); break;
	}
	window<9>(V(fill.begin(), fill.begin() + salt % 7), salt % 3, salt, into);
	typedef sprout::array<int, 6> A6;
	V none(6, 0);
#define ONE(OP) \
	{ Ev e("fixed"); e("op", #OP)("c", n)("a", a)("b", b)("w", none)("l", 0)("h", 6); after(e, snap(sprout::OP<A6>(f1, l1, f2, l2, c))).emit(); } \
	{ Ev e("fixed"); e("op", #OP)("c", n)("a", a)("b", b)("w", none)("l", 0)("h", 6); after(e, snap(sprout::range::fixed::OP<A6>(r1, r2, c))).emit(); } \
	if (dflt) { Ev e("fixed"); e("op", #OP)("c", n)("a", a)("b", b)("w", none)("l", 0)("h", 6); after(e, snap(sprout::OP<A6>(f1, l1, f2, l2))).emit(); }
	OP4(ONE)
#undef ONE
#else
	int cap = (int)(a.size() + b.size());
#define ONE(OP) \
	{ V x(cap + 3, -5); Ev e("to"); e("op", #OP)("c", n)("a", a)("b", b)("w", x)("l", 1); int k = int(sprout::OP(f1, l1, f2, l2, x.data() + 1, c) - (x.data() + 1)); e("r", x)("x", k).emit(); } \
	{ V x(cap + 3, -5); Ev e("to"); e("op", #OP)("c", n)("a", a)("b", b)("w", x)("l", 1); int k = int(sprout::range::OP(r1, r2, x.data() + 1, c) - (x.data() + 1)); e("r", x)("x", k).emit(); } \
	if (dflt) { V x(cap + 3, -5); Ev e("to"); e("op", #OP)("c", n)("a", a)("b", b)("w", x)("l", 1); int k = int(sprout::OP(f1, l1, f2, l2, x.data() + 1) - (x.data() + 1)); e("r", x)("x", k).emit(); }
	OP4(ONE)
#undef ONE
#define ONE(OP, MAKE) { \
	auto i = sprout::MAKE(f1, l1, f2, l2, c); auto z = sprout::MAKE(l1, l1, l2, l2, c); \
	REC(("iter")("op", #OP)("c", n)("a", a)("b", b), walk(i, z)); REC(("iter")("op", #OP)("c", n)("a", a)("b", b), walkn(i, z)); REC(("iter")("op", #OP)("c", n)("a", a)("b", b), walkp(i, z)); \
	if (dflt) { auto i2 = sprout::MAKE(f1, l1, f2, l2); auto z2 = sprout::MAKE(l1, l1, l2, l2); REC(("iter")("op", #OP)("c", n)("a", a)("b", b), walk(i2, z2)); } }
	ONE(merge, make_merge_iterator) ONE(set_union, make_set_union_iterator) ONE(set_intersection, make_set_intersection_iterator)
	ONE(set_difference, make_set_difference_iterator) ONE(set_symmetric_difference, make_set_symmetric_difference_iterator)
#undef ONE
#define ONE(OP, AD) { auto v = r1 | sprout::adaptors::AD(r2, c); REC(("iter")("op", #OP)("c", n)("a", a)("b", b), walk(v.begin(), v.end())); }
	ONE(merge, merged) ONE(set_union, set_union) ONE(set_intersection, set_intersection) ONE(set_difference, set_difference) ONE(set_symmetric_difference, set_symmetric_difference)
#undef ONE
	REC(("includes")("c", n)("a", a)("b", b), sprout::includes(f1, l1, f2, l2, c)); REC(("includes")("c", n)("a", a)("b", b), sprout::range::includes(r1, r2, c));
	if (dflt) { REC(("includes")("c", n)("a", a)("b", b), sprout::includes(f1, l1, f2, l2)); REC(("includes")("c", n)("a", a)("b", b), sprout::range::includes(r1, r2)); }
#define POS(X) ([&]() { auto p = X; return V{int(mk<I>::raw(p.first) - a.data()), int(mk<J>::raw(p.second) - b.data())}; }())
#define ONE(OP) REC((#OP)("c", n)("a", a)("b", b), POS(sprout::OP(f1, l1, f2, l2, c))); REC((#OP)("c", n)("a", a)("b", b), POS(sprout::range::OP(r1, r2, c))); if (dflt) REC((#OP)("c", n)("a", a)("b", b), POS(sprout::OP(f1, l1, f2, l2)));
	ONE(find_intersection) ONE(find_difference) ONE(find_symmetric_difference)
#undef ONE
#endif
}
// inplace_merge
template<typename C> struct Inpl {
	C c; bool dflt; int m;
	template<typename T> void operator()(T const& t) const {
		char const* n = C::name();
		FN(("inplace_merge")("c", n)("m", m), t, sprout::inplace_merge(t, sprout::next(sprout::begin(t), m), c));
		FN(("inplace_merge")("c", n)("m", m), t, sprout::fit::inplace_merge(t, sprout::next(sprout::begin(t), m), c));
		if (dflt) { FN(("inplace_merge")("c", n)("m", m), t, sprout::inplace_merge(t, sprout::next(sprout::begin(t), m))); FN(("inplace_merge")("c", n)("m", m), t, sprout::fit::inplace_merge(t, sprout::next(sprout::begin(t), m))); }
	}
};
template<typename I, typename C> void inpl(V const& v, int m, C c, bool dflt, int pre) {
	char const* n = C::name();
	V w(pre, -5); w.insert(w.end(), v.begin(), v.end()); w.push_back(-7);
	int l = pre, h = pre + (int)v.size();
#define AT(k) mmk<I>::at(x.data(), k)
	typedef sprout::range::range_container<I> R;
	{ V x(w); INPLACE(("inplace_merge")("c", n)("m", m), x, l, h, sprout::inplace_merge(AT(l), AT(l + m), AT(h), c)); }
	{ V x(w); INPLACE(("inplace_merge")("c", n)("m", m), x, l, h, sprout::range::inplace_merge(R(AT(l), AT(h)), AT(l + m), c)); }
	if (dflt) { V x(w); INPLACE(("inplace_merge")("c", n)("m", m), x, l, h, sprout::inplace_merge(AT(l), AT(l + m), AT(h))); }
}
template<typename C> V tagsorted(V k, C, int t0) { std::sort(k.begin(), k.end()); if (std::string(C::name()) == "kgt") std::reverse(k.begin(), k.end()); return tagged(k, t0); }
void pairs(V const& ka, V const& kb, int salt) {
	V a = tagsorted(ka, c_key(), 0), b = tagsorted(kb, c_key(), 5);
	switch (salt % 4) {
	case 0: tag() = "ptr,ptr"; all<int const*, int const*>(a, b, c_key(), false, salt / 4); break;
	case 1: tag() = "ra,ra"; all<rai, rai>(a, b, c_key(), false, salt / 4); break;
	case 2: tag() = "fwd,fwd"; all<fwd, fwd>(a, b, c_key(), false, salt / 4); break;
	default: tag() = "ra,fwd"; all<rai, fwd>(a, b, c_key(), false, salt / 4); break;
	}
	if (salt % 2 == 0) { V x(ka), y(kb); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); tag() = "ra,ra"; all<rai, rai>(x, y, c_lt(), true, salt / 2); }
	if (salt % 3 == 0) { V x = tagsorted(ka, c_kgt(), 0), y = tagsorted(kb, c_kgt(), 5); tag() = "bid,ptr"; all<bid, int const*>(x, y, c_kgt(), false, salt / 3); tag() = "ra,ptr"; all<rai, int const*>(a, b, c_key(), false, salt / 3); }
#if PART == 2
	V v(a); v.insert(v.end(), b.begin(), b.end()); int m = (int)a.size();
	tag() = "ptr"; inpl<int*>(v, m, c_key(), false, salt % 3);
	tag() = "ra"; inpl<mrai>(v, m, c_key(), false, salt % 2);
	{ V x(ka), y(kb); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); x.insert(x.end(), y.begin(), y.end()); inpl<int*>(x, m, c_lt(), true, 0); tag() = "array"; if (x.size() <= 8) whole(x, Inpl<c_lt>{c_lt(), true, m}); }
	if (v.size() <= 8) { tag() = "array"; whole(v, Inpl<c_key>{c_key(), false, m}); tag() = "window"; window<9>(v, salt % (10 - (int)v.size()), salt, Inpl<c_key>{c_key(), false, m}); }
#endif
}
int main(int argc, char** argv) {
	init(argc, argv);
	bool th = thorough();
	int salt = 0;
	std::vector<V> s;
	auto nondec = [](V const& v) { for (std::size_t i = 1; i < v.size(); ++i) if (v[i] < v[i - 1]) return false; return true; };
	all_seqs(3, th ? 5 : 4, [&](V const& v) { if (nondec(v)) s.push_back(v); });
	for (auto& a : s) for (auto& b : s) { pairs(a, b, salt); salt += 1; }
	for (auto& a : s) for (auto& b : s) if (th || salt % 3 == 0) { pairs(a, b, salt + 1); salt += 1; } else ++salt;
	for (int i = 0; i < (th ? 1500 : 250); ++i) pairs(rnd_seq(rnd(1, 8), rnd(0, 14)), rnd_seq(rnd(1, 8), rnd(0, 14)), rnd(0, 1000));
	return done();
}
