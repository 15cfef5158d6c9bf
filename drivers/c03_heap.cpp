// Heaps: functional, fit, in-place iterator and range forms, and histories of calls on one buffer.
#include "conts.hpp"
#include <sprout/algorithm/make_heap.hpp>
#include <sprout/algorithm/push_heap.hpp>
#include <sprout/algorithm/pop_heap.hpp>
#include <sprout/algorithm/sort_heap.hpp>
#include <sprout/algorithm/make_partial_heap.hpp>
#include <sprout/algorithm/is_heap.hpp>
#include <sprout/algorithm/is_heap_until.hpp>
#include <sprout/range/algorithm.hpp>
using namespace vf;

#define BOTH(NAME, ...) FN((#NAME)("c", n), t, sprout::NAME(t, ##__VA_ARGS__)); FN((#NAME)("c", n), t, sprout::fit::NAME(t, ##__VA_ARGS__))
template<typename C> struct Any {
	C c; bool dflt;
	template<typename T> void operator()(T const& t) const {
		char const* n = C::name();
		BOTH(make_heap, c); if (dflt) { BOTH(make_heap); }
		int sz = int(sprout::size(t));
		for (int m = 0; m <= sz; ++m) {
			FN(("make_partial_heap")("c", n)("m", m), t, sprout::make_partial_heap(t, sprout::next(sprout::begin(t), m), c));
			FN(("fit_make_partial_heap")("c", n)("m", m), t, sprout::fit::make_partial_heap(t, sprout::next(sprout::begin(t), m), c));
			if (dflt) {
				FN(("make_partial_heap")("c", n)("m", m), t, sprout::make_partial_heap(t, sprout::next(sprout::begin(t), m)));
				FN(("fit_make_partial_heap")("c", n)("m", m), t, sprout::fit::make_partial_heap(t, sprout::next(sprout::begin(t), m)));
			}
		}
	}
};
template<typename C> struct OfHeap {
	C c; bool dflt;
	template<typename T> void operator()(T const& t) const {
		char const* n = C::name();
		BOTH(sort_heap, c); if (dflt) { BOTH(sort_heap); }
		if (sprout::size(t) > 0) {
			FN(("pop_heap")("c", n), t, sprout::pop_heap(t, c)); FN(("fit_pop_heap")("c", n), t, sprout::fit::pop_heap(t, c));
			if (dflt) { FN(("pop_heap")("c", n), t, sprout::pop_heap(t)); FN(("fit_pop_heap")("c", n), t, sprout::fit::pop_heap(t)); }
		}
	}
};
template<typename C> struct Push {
	C c; bool dflt;
	template<typename T> void operator()(T const& t) const {
		char const* n = C::name();
		BOTH(push_heap, c); if (dflt) { BOTH(push_heap); }
	}
};
template<typename I, typename C> void inplace(V const& v, C c, bool dflt, int pre, int post) {
	char const* n = C::name();
	int l = pre, h = pre + (int)v.size();
	auto buf = [&](V const& v) { V w(pre, -5); w.insert(w.end(), v.begin(), v.end()); w.insert(w.end(), post, -7); return w; };
	typedef sprout::range::range_container<I> R;
#define AT(k) mmk<I>::at(x.data(), k)
#define IN(NAME, W) \
	{ V x(W); INPLACE((#NAME)("c", n), x, l, h, sprout::NAME(AT(l), AT(h), c)); } \
	{ V x(W); INPLACE((#NAME)("c", n), x, l, h, sprout::range::NAME(R(AT(l), AT(h)), c)); } \
	if (dflt) { V x(W); INPLACE((#NAME)("c", n), x, l, h, sprout::NAME(AT(l), AT(h))); } \
	if (dflt) { V x(W); INPLACE((#NAME)("c", n), x, l, h, sprout::range::NAME(R(AT(l), AT(h)))); }
	V w = buf(v); IN(make_heap, w)
	V hv(v); std::make_heap(hv.begin(), hv.end(), c);
	V hw = buf(hv); IN(sort_heap, hw) if (!v.empty()) { IN(pop_heap, hw) }
	if (!v.empty()) { V pv(v); std::make_heap(pv.begin(), pv.end() - 1, c); V pw = buf(pv); IN(push_heap, pw) }
}
template<typename I, typename C> void checks(V const& a, C c) {
	char const* n = C::name();
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size());
	sprout::range::range_container<I> rg(f, l);
	REC(("is_heap")("c", n)("a", a), sprout::is_heap(f, l, c)); REC(("is_heap")("c", n)("a", a), sprout::range::is_heap(rg, c));
	REC(("is_heap_until")("c", n)("a", a), int(mk<I>::raw(sprout::is_heap_until(f, l, c)) - a.data()));
	REC(("is_heap_until")("c", n)("a", a), int(mk<I>::raw(sprout::range::is_heap_until(rg, c)) - a.data()));
	if (std::string(n) == "lt") {
		REC(("is_heap")("c", n)("a", a), sprout::is_heap(f, l)); REC(("is_heap")("c", n)("a", a), sprout::range::is_heap(rg));
		REC(("is_heap_until")("c", n)("a", a), int(mk<I>::raw(sprout::is_heap_until(f, l)) - a.data()));
		REC(("is_heap_until")("c", n)("a", a), int(mk<I>::raw(sprout::range::is_heap_until(rg)) - a.data()));
	}
}
template<typename C> void one(V const& v, C c, bool dflt, int salt, bool win) {
	V hv(v); std::make_heap(hv.begin(), hv.end(), c);
	V pv(v); if (!pv.empty()) std::make_heap(pv.begin(), pv.end() - 1, c);
	tag() = "array";
	whole(v, Any<C>{c, dflt}); whole(hv, OfHeap<C>{c, dflt}); whole(pv, Push<C>{c, dflt});
	if (win) {
		tag() = "window";
		int l = salt % (10 - (int)v.size());
		window<9>(v, l, salt, Any<C>{c, dflt}); window<9>(hv, l, salt / 3, OfHeap<C>{c, dflt}); window<9>(pv, l, salt / 2, Push<C>{c, dflt});
	}
}
void functional(V const& v, int salt) {
	V t = tagged(v);
	one(v, c_lt(), true, salt, salt % 3 == 0); one(t, c_key(), false, salt, true);
	if (salt % 3 == 0) { one(t, c_kgt(), false, salt + 1, true); }
}
void iterators(V const& v, int salt) {
	V t = tagged(v);
	tag() = "ptr"; inplace<int*>(v, c_lt(), true, salt % 3, 1); inplace<int*>(t, c_key(), false, 1, salt % 2);
	tag() = "ra"; inplace<mrai>(t, c_kgt(), false, 1, 1); inplace<mrai>(v, c_lt(), true, 0, 0);
	tag() = "ra"; checks<rai>(v, c_lt()); checks<rai>(t, c_key());
	tag() = "ptr"; checks<int const*>(v, c_lt()); checks<int const*>(t, c_kgt()); checks<int const*>(v, c_gt());
}
template<int N> void bigfun() {
	V y = rnd_seq(30, N); y = tagged(y); tag() = "array"; char const* n = "key"; c_key c;
	{ auto const t = arr<N>(y); BOTH(make_heap, c); FN(("make_partial_heap")("c", n)("m", N / 2), t, sprout::make_partial_heap(t, t.begin() + N / 2, c)); }
	std::make_heap(y.begin(), y.end(), c);
	{ auto const t = arr<N>(y); BOTH(sort_heap, c); FN(("pop_heap")("c", n), t, sprout::pop_heap(t, c)); }
}
// a history of calls on one buffer
template<typename I, typename C> void inplace_history(C c, int cap, int steps) {
	char const* n = C::name();
	V x = tagged(rnd_seq(rnd(2, 9), cap)); int h = 0; bool heap = true;
	begin_history();
	Ev("start")("w", x)("h", h).emit();
	for (int i = 0; i < steps; ++i) {
		int k = rnd(0, 9);
		typedef sprout::range::range_container<I> R;
		bool rg = rnd(0, 1);
		if (!heap || (k == 9 && h > 0)) { Ev e("make"); if (rg) sprout::range::make_heap(R(AT(0), AT(h)), c); else sprout::make_heap(AT(0), AT(h), c); heap = true; e("c", n)("w", x)("h", h).emit(); }
		else if (k < 5 && h < cap) { Ev e("push"); ++h; if (rg) sprout::range::push_heap(R(AT(0), AT(h)), c); else sprout::push_heap(AT(0), AT(h), c); e("c", n)("w", x)("h", h).emit(); }
		else if (k < 8 && h > 0) { Ev e("pop"); if (rg) sprout::range::pop_heap(R(AT(0), AT(h)), c); else sprout::pop_heap(AT(0), AT(h), c); --h; e("c", n)("w", x)("h", h).emit(); }
		else if (k == 8) { Ev e("sort"); sprout::sort_heap(AT(0), AT(h), c); heap = h < 2; e("c", n)("w", x)("h", h).emit(); }
	}
	end_history();
}
// the same with the functional forms: the window grows with sub_copy and shrinks with fit::pop_heap
template<int N, typename C> void functional_history(C c, int steps) {
	char const* n = C::name();
	V x = tagged(rnd_seq(rnd(2, 9), N));
	sprout::sub_array<sprout::array<int, N> > s = sprout::sub_copy(arr<N>(x), 0, 0);
	int h = 0; bool heap = true;
	begin_history();
	Ev("start")("w", x)("h", h).emit();
	auto put = [&](Ev& e) { Snap q = snap(s); e("c", n)("w", q.w)("h", q.h - q.l).emit(); };
	for (int i = 0; i < steps; ++i) {
		int k = rnd(0, 10);
		if (!heap || (k == 9 && h > 0)) { Ev e("make"); s = sprout::fit::make_heap(s, c); heap = true; put(e); }
		else if (k < 5 && h < N) { Ev e("push"); ++h; s = sprout::fit::push_heap(sprout::sub_copy(s.get_internal(), 0, h), c); put(e); }
		else if (k < 8 && h > 0) { Ev e("pop"); s = sprout::fit::pop_heap(s, c); --h; put(e); }
		else if (k == 8) { Ev e("sort"); s = sprout::fit::sort_heap(s, c); heap = h < 2; put(e); }
		else if (k == 10) { Ev e("partial"); int m = rnd(0, N); auto const in = s.get_internal(); s = sprout::fit::make_partial_heap(in, in.begin() + m, c); h = m; heap = true; e("m", m); put(e); }
	}
	end_history();
}

int main(int argc, char** argv) {
	init(argc, argv);
	bool th = thorough();
	int salt = 0;
#if PART == 1
	all_seqs(3, th ? 6 : 5, [&](V const& v) { functional(v, salt++); });
	for (int n = 4; n <= (th ? 7 : 5); ++n) { V p(n); for (int i = 0; i < n; ++i) p[i] = i; do { functional(p, salt); ++salt; } while (std::next_permutation(p.begin(), p.end())); }
	for (int i = 0; i < (th ? 800 : 120); ++i) functional(rnd_seq(rnd(2, 9), rnd(6, 8)), salt++);
	for (int k = 0; k < 6; ++k) { bigfun<13>(); bigfun<16>(); bigfun<17>(); bigfun<31>(); bigfun<32>(); bigfun<48>(); }
#elif PART == 2
	all_seqs(3, th ? 7 : 6, [&](V const& v) { iterators(v, salt++); });
	for (int n = 4; n <= (th ? 8 : 6); ++n) { V p(n); for (int i = 0; i < n; ++i) p[i] = i; do { iterators(p, salt); ++salt; } while (std::next_permutation(p.begin(), p.end())); }
	for (int i = 0; i < (th ? 2000 : 300); ++i) { int n = rnd(8, 60); V v = rnd_seq(rnd(1, 40), n); iterators(v, salt++); std::make_heap(v.begin(), v.end()); iterators(v, salt++); v[rnd(0, n - 1)] = 50; iterators(v, salt++); }
#else
	for (int i = 0; i < (th ? 1500 : 200); ++i) { inplace_history<int*>(c_key(), rnd(2, 20), 30); inplace_history<mrai>(c_kgt(), rnd(2, 12), 20); inplace_history<int*>(c_lt(), rnd(1, 6), 20); }
	for (int i = 0; i < (th ? 400 : 60); ++i) { functional_history<5>(c_key(), 20); functional_history<8>(c_kgt(), 25); functional_history<11>(c_lt(), 30); }
#endif
	return done();
}
