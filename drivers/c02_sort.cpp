// Sorting and selection: functional, fit, in-place iterator and range forms.
#include "conts.hpp"
#include <sprout/algorithm/sort.hpp>
#include <sprout/algorithm/stable_sort.hpp>
#include <sprout/algorithm/partial_sort.hpp>
#include <sprout/algorithm/partial_sort_copy.hpp>
#include <sprout/algorithm/nth_element.hpp>
#include <sprout/algorithm/is_sorted.hpp>
#include <sprout/algorithm/is_sorted_until.hpp>
#include <sprout/range/algorithm.hpp>
using namespace vf;

struct bkey { constexpr bool operator()(int x, int y) const { return x / 10000 < y / 10000; } static char const* name() { return "bkey"; } };

template<typename C> struct Fun {
	C c; bool dflt;
	template<typename T> void operator()(T const& t) const {
		char const* n = C::name();
		FN(("sort")("c", n), t, sprout::sort(t, c)); FN(("sort")("c", n), t, sprout::fit::sort(t, c));
		FN(("stable_sort")("c", n), t, sprout::stable_sort(t, c)); FN(("stable_sort")("c", n), t, sprout::fit::stable_sort(t, c));
		if (dflt) {
			FN(("sort")("c", n), t, sprout::sort(t)); FN(("sort")("c", n), t, sprout::fit::sort(t));
			FN(("stable_sort")("c", n), t, sprout::stable_sort(t)); FN(("stable_sort")("c", n), t, sprout::fit::stable_sort(t));
		}
		int sz = int(sprout::size(t));
		for (int m = 0; m <= sz; ++m) {
			FN(("partial_sort")("c", n)("m", m), t, sprout::partial_sort(t, sprout::next(sprout::begin(t), m), c));
			FN(("fit_partial_sort")("c", n)("m", m), t, sprout::fit::partial_sort(t, sprout::next(sprout::begin(t), m), c));
			FN(("nth_element")("c", n)("m", m), t, sprout::nth_element(t, sprout::next(sprout::begin(t), m), c));
			if (m < sz) FN(("fit_nth_element")("c", n)("m", m), t, sprout::fit::nth_element(t, sprout::next(sprout::begin(t), m), c));
			if (dflt) {
				FN(("partial_sort")("c", n)("m", m), t, sprout::partial_sort(t, sprout::next(sprout::begin(t), m)));
				FN(("fit_partial_sort")("c", n)("m", m), t, sprout::fit::partial_sort(t, sprout::next(sprout::begin(t), m)));
				FN(("nth_element")("c", n)("m", m), t, sprout::nth_element(t, sprout::next(sprout::begin(t), m)));
				if (m < sz) FN(("fit_nth_element")("c", n)("m", m), t, sprout::fit::nth_element(t, sprout::next(sprout::begin(t), m)));
			}
		}
	}
};

template<typename I, typename C> void inplace(V const& v, C c, bool dflt, int pre, int post, V const& ms, bool stable = true) {
	char const* n = C::name();
	V w(pre, -5); w.insert(w.end(), v.begin(), v.end()); w.insert(w.end(), post, -7);
	int l = pre, h = pre + (int)v.size();
	typedef sprout::range::range_container<I> R;
#define AT(k) mmk<I>::at(x.data(), k)
	{ V x(w); INPLACE(("sort")("c", n), x, l, h, sprout::sort(AT(l), AT(h), c)); }
	{ V x(w); INPLACE(("sort")("c", n), x, l, h, sprout::range::sort(R(AT(l), AT(h)), c)); }
	if (stable) {
		{ V x(w); INPLACE(("stable_sort")("c", n), x, l, h, sprout::stable_sort(AT(l), AT(h), c)); }
		{ V x(w); INPLACE(("stable_sort")("c", n), x, l, h, sprout::range::stable_sort(R(AT(l), AT(h)), c)); }
	}
	if (dflt) {
		{ V x(w); INPLACE(("sort")("c", n), x, l, h, sprout::sort(AT(l), AT(h))); }
		{ V x(w); INPLACE(("sort")("c", n), x, l, h, sprout::range::sort(R(AT(l), AT(h)))); }
		if (stable) {
			{ V x(w); INPLACE(("stable_sort")("c", n), x, l, h, sprout::stable_sort(AT(l), AT(h))); }
			{ V x(w); INPLACE(("stable_sort")("c", n), x, l, h, sprout::range::stable_sort(R(AT(l), AT(h)))); }
		}
	}
	for (int m : ms) if (m >= 0 && m <= (int)v.size()) {
		{ V x(w); INPLACE(("partial_sort")("c", n)("m", m), x, l, h, sprout::partial_sort(AT(l), AT(l + m), AT(h), c)); }
		{ V x(w); INPLACE(("partial_sort")("c", n)("m", m), x, l, h, sprout::range::partial_sort(R(AT(l), AT(h)), AT(l + m), c)); }
		{ V x(w); INPLACE(("nth_element")("c", n)("m", m), x, l, h, sprout::nth_element(AT(l), AT(l + m), AT(h), c)); }
		{ V x(w); INPLACE(("nth_element")("c", n)("m", m), x, l, h, sprout::range::nth_element(R(AT(l), AT(h)), AT(l + m), c)); }
		if (dflt) {
			{ V x(w); INPLACE(("partial_sort")("c", n)("m", m), x, l, h, sprout::partial_sort(AT(l), AT(l + m), AT(h))); }
			{ V x(w); INPLACE(("nth_element")("c", n)("m", m), x, l, h, sprout::nth_element(AT(l), AT(l + m), AT(h))); }
		}
	}
}
template<typename I, typename C> void checks(V const& a, C c) {
	char const* n = C::name();
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size());
	sprout::range::range_container<I> rg(f, l);
	REC(("is_sorted")("c", n)("a", a), sprout::is_sorted(f, l, c)); REC(("is_sorted")("c", n)("a", a), sprout::range::is_sorted(rg, c));
	REC(("is_sorted_until")("c", n)("a", a), int(mk<I>::raw(sprout::is_sorted_until(f, l, c)) - a.data()));
	REC(("is_sorted_until")("c", n)("a", a), int(mk<I>::raw(sprout::range::is_sorted_until(rg, c)) - a.data()));
	if (std::string(n) == "lt") {
		REC(("is_sorted")("c", n)("a", a), sprout::is_sorted(f, l)); REC(("is_sorted")("c", n)("a", a), sprout::range::is_sorted(rg));
		REC(("is_sorted_until")("c", n)("a", a), int(mk<I>::raw(sprout::is_sorted_until(f, l)) - a.data()));
	}
}
template<typename I, typename C> void psc(V const& a, C c, int cap) {
	char const* n = C::name();
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size());
	for (int d = 0; d <= cap; ++d) {
		{ V x(cap + 2, -3); x[0] = -1; x[cap + 1] = -2;
		vf::Ev e("partial_sort_copy"); e("c", n)("a", a)("w", x)("l", 1)("h", 1 + d);
		int k = int(sprout::partial_sort_copy(f, l, x.data() + 1, x.data() + 1 + d, c) - (x.data() + 1)); e("r", x)("x", k).emit(); }
		{ V x(cap + 2, -3); x[0] = -1; x[cap + 1] = -2;
		vf::Ev e("partial_sort_copy"); e("c", n)("a", a)("w", x)("l", 1)("h", 1 + d);
		typedef sprout::range::range_container<int*> R; typedef sprout::range::range_container<I> S;
		int k = int(sprout::range::partial_sort_copy(S(f, l), R(x.data() + 1, x.data() + 1 + d), c) - (x.data() + 1)); e("r", x)("x", k).emit(); }
		if (std::string(n) == "lt") { V x(cap + 2, -3); x[0] = -1; x[cap + 1] = -2;
		vf::Ev e("partial_sort_copy"); e("c", n)("a", a)("w", x)("l", 1)("h", 1 + d);
		int k = int(sprout::partial_sort_copy(f, l, x.data() + 1, x.data() + 1 + d) - (x.data() + 1)); e("r", x)("x", k).emit(); }
	}
}

void functional(V const& v, int salt) {
	tag() = "array"; whole(v, Fun<c_lt>{c_lt(), true});
	V t = tagged(v);
	whole(t, Fun<c_key>{c_key(), false});
	tag() = "window";
	int l = salt % (10 - (int)v.size());
	window<9>(t, l, salt, Fun<c_key>{c_key(), false});
	if (salt % 3 == 0) { window<9>(t, l, salt / 3, Fun<c_kgt>{c_kgt(), false}); window<9>(v, l, salt / 3, Fun<c_lt>{c_lt(), true}); whole(t, Fun<c_kgt>{c_kgt(), false}); }
}
void iterators(V const& v, int salt, V const& ms) {
	V t = tagged(v);
	tag() = "ptr"; inplace<int*>(v, c_lt(), true, salt % 3, 1, ms); inplace<int*>(t, c_key(), false, 1, salt % 2, ms);
	tag() = "ra"; inplace<mrai>(t, c_kgt(), false, 1, 1, ms); inplace<mrai>(v, c_lt(), true, 0, 0, ms);
}
void sortedness(V const& v) {
	V t = tagged(v);
	tag() = "ra"; checks<rai>(v, c_lt()); checks<rai>(t, c_key()); checks<rai>(v, c_gt());
	tag() = "ptr"; checks<int const*>(v, c_lt()); checks<int const*>(t, c_kgt());
	tag() = "fwd"; checks<fwd>(v, c_lt()); checks<fwd>(t, c_key());
}
// long inputs: values key*10000+position
struct kv { V v; };
V pattern(int n, int k) {
	V v(n);
	for (int i = 0; i < n; ++i) {
		int x;
		switch (k) {
		case 0: x = i; break; case 1: x = n - i; break; case 2: x = i < n / 2 ? i : n - i; break; case 3: x = 7; break;
		case 4: x = i % 5; break; case 5: x = rnd(0, 3); break; case 6: x = rnd(0, 20000); break; case 7: x = i ^ 1; break;
		case 8: x = i == n - 1 ? 0 : i + 1; break; case 9: x = i == 0 ? n : i; break; case 10: x = (i * 7919) % n; break; default: x = i < n / 2 ? n / 2 - i : i; break;
		}
		v[i] = x * 10000 + i;
	}
	return v;
}
void big(int n, int k) {
	V v = pattern(n, k);
	tag() = "ptr";
	{ V x(v); INPLACE(("sort")("c", "lt"), x, 0, n, sprout::sort(x.data(), x.data() + n)); }
	{ V x(v); for (int& y : x) y /= 10000; INPLACE(("sort")("c", "lt"), x, 0, n, sprout::sort(x.data(), x.data() + n)); }
	{ V x(v); INPLACE(("stable_sort_big"), x, 0, n, sprout::stable_sort(x.data(), x.data() + n, bkey())); }
	if (n <= 120) {
		V ms{0, 1, n / 3, n / 2, n - 1, n};
		V y(v); for (int& z : y) z /= 10000;
		inplace<int*>(y, c_gt(), false, 0, 0, ms, false); inplace<mrai>(y, c_lt(), true, 1, 1, ms, n < 70);
	}
}
template<int N> void bigfun(int k) {
	V v = pattern(N, k); V y(v); for (int& z : y) z = z / 10000 % 50 * 10 + z % 10;
	tag() = "array";
	auto const a = arr<N>(y);
	FN(("sort")("c", "key"), a, sprout::sort(a, c_key())); FN(("sort")("c", "lt"), a, sprout::sort(a));
	auto const b = arr<N>(v);
	FN(("stable_sort_big"), b, sprout::stable_sort(b, bkey()));
	FN(("partial_sort")("c", "key")("m", N / 2), a, sprout::partial_sort(a, a.begin() + N / 2, c_key()));
	FN(("nth_element")("c", "key")("m", N / 3), a, sprout::nth_element(a, a.begin() + N / 3, c_key()));
}

int main(int argc, char** argv) {
	init(argc, argv);
	bool th = thorough();
	int salt = 0;
#if PART == 1
	all_seqs(3, th ? 6 : 5, [&](V const& v) { functional(v, salt++); });
	for (int n = 4; n <= (th ? 7 : 6); ++n) { V p(n); for (int i = 0; i < n; ++i) p[i] = i; do { if (n < 6 || th || salt % 3 == 0) functional(p, salt); ++salt; } while (std::next_permutation(p.begin(), p.end())); }
	for (int i = 0; i < (th ? 600 : 120); ++i) functional(rnd_seq(rnd(2, 9), rnd(6, 8)), salt++);
	for (int k = 0; k < 12; ++k) { bigfun<13>(k); bigfun<16>(k); bigfun<17>(k); bigfun<33>(k); bigfun<64>(k); }
#elif PART == 2
	V ms{0, 1, 2, 3, 4, 5, 6, 7, 8};
	all_seqs(3, th ? 7 : 6, [&](V const& v) { iterators(v, salt++, ms); });
	for (int n = 5; n <= (th ? 8 : 7); ++n) { V p(n); for (int i = 0; i < n; ++i) p[i] = i; do { if (n < 7 || th || salt % 7 == 0) iterators(p, salt, V{n / 2}); ++salt; } while (std::next_permutation(p.begin(), p.end())); }
	for (int i = 0; i < (th ? 2000 : 300); ++i) { int n = rnd(8, 40); iterators(rnd_seq(rnd(1, 12), n), salt++, V{0, 1, rnd(0, n), rnd(0, n), n - 1, n}); }
	for (int k = 0; k < 12; ++k) for (int n : {12, 15, 16, 17, 29, 30, 31, 32, 33, 45, 60, 61, 64, 100, 120, 257}) big(n, k);
	for (int k = 0; k < 12; ++k) for (int n : {999, 1000, 1001, 1300}) if (th || n == 1001 || k < 2) big(n, k);
#else
	all_seqs(3, th ? 7 : 6, [&](V const& v) { sortedness(v); });
	for (int i = 0; i < (th ? 1000 : 200); ++i) {
		V v = rnd_seq(rnd(1, 5), rnd(5, 60)); std::sort(v.begin(), v.end()); sortedness(v); std::reverse(v.begin(), v.end()); sortedness(v); std::reverse(v.begin(), v.end());
		v[rnd(0, (int)v.size() - 1)] = rnd(0, 4); sortedness(v);
	}
	all_seqs(3, 5, [&](V const& v) { tag() = "ptr"; psc<int const*>(v, c_lt(), 6); tag() = "fwd"; psc<fwd>(v, c_lt(), 6); tag() = "in"; psc<inp>(tagged(v), c_key(), 6); });
	for (int i = 0; i < (th ? 500 : 100); ++i) { V v = rnd_seq(6, rnd(6, 30)); tag() = "ptr"; psc<int const*>(v, c_gt(), 12); psc<inp>(v, c_lt(), 20); }
#endif
	return done();
}
