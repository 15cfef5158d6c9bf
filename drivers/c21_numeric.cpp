// C21: folds and scans in their functional, fit, range and in-place forms.
#include "conts.hpp"
#include <sprout/numeric.hpp>
#include <sprout/range/numeric.hpp>
using namespace vf;
struct aff { constexpr int operator()(int x, int y) const { return (x / 7) * (y / 7) % 7 * 7 + ((y / 7) * (x % 7) + y % 7) % 7; } };
struct mix { constexpr int operator()(int x, int y) const { return ((10 * x + y) % 1009 + 1009) % 1009; } };
struct subt { constexpr int operator()(int x, int y) const { return x - y; } };
struct sec { constexpr int operator()(int, int y) const { return y; } };
struct x3 { constexpr int operator()(int x) const { return 3 * x + 1; } };
#define BOTH(F, FIELDS, T, OP, ...) \
	do { FN(F FIELDS("f", "fixed"), T, sprout::OP(__VA_ARGS__)); FN(F FIELDS("f", "fixed"), T, sprout::fixed::OP(__VA_ARGS__)); FN(F FIELDS("f", "fit"), T, sprout::fit::OP(__VA_ARGS__)); } while (0)
#define RBOTH(F, FIELDS, T, OP, ...) \
	do { FN(F FIELDS("f", "fixed"), T, sprout::range::fixed::OP(__VA_ARGS__)); FN(F FIELDS("f", "fixed"), T, sprout::range::OP(__VA_ARGS__)); FN(F FIELDS("f", "fit"), T, sprout::range::fit::OP(__VA_ARGS__)); } while (0)
template<typename I> struct Into { // [f, l) -> container
	V const& a; int s;
	template<typename T> void operator()(T const& t) const {
		I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size()); sprout::range::range_container<I> rg(f, l);
		int v = 3 + s % 40;
#if PART % 2 == 1
		BOTH(("inclusive"), ("a", a)("b", "plus"), t, partial_sum, f, l, t); BOTH(("inclusive"), ("a", a)("b", "mix"), t, partial_sum, f, l, t, mix()); BOTH(("inclusive"), ("a", a)("b", "sub"), t, partial_sum, f, l, t, subt());
		RBOTH(("inclusive"), ("a", a)("b", "plus"), t, partial_sum, rg, t); RBOTH(("inclusive"), ("a", a)("b", "mix"), t, partial_sum, rg, t, mix());
		BOTH(("inclusive"), ("a", a)("b", "plus"), t, inclusive_scan, f, l, t); BOTH(("inclusive"), ("a", a)("b", "mix"), t, inclusive_scan, f, l, t, mix()); BOTH(("inclusive_init"), ("a", a)("b", "mix")("v", v), t, inclusive_scan, f, l, t, mix(), v);
		RBOTH(("inclusive"), ("a", a)("b", "plus"), t, inclusive_scan, rg, t); RBOTH(("inclusive"), ("a", a)("b", "aff"), t, inclusive_scan, rg, t, aff()); RBOTH(("inclusive_init"), ("a", a)("b", "sub")("v", v), t, inclusive_scan, rg, t, subt(), v);
		BOTH(("adjacent"), ("a", a)("b", "sub"), t, adjacent_difference, f, l, t); BOTH(("adjacent"), ("a", a)("b", "mix"), t, adjacent_difference, f, l, t, mix());
		RBOTH(("adjacent"), ("a", a)("b", "sub"), t, adjacent_difference, rg, t); RBOTH(("adjacent"), ("a", a)("b", "mix"), t, adjacent_difference, rg, t, mix());
#else
		BOTH(("exclusive"), ("a", a)("b", "plus")("v", v), t, exclusive_scan, f, l, t, v); BOTH(("exclusive"), ("a", a)("b", "mix")("v", v), t, exclusive_scan, f, l, t, v, mix()); BOTH(("exclusive"), ("a", a)("b", "aff")("v", v), t, exclusive_scan, f, l, t, v, aff());
		RBOTH(("exclusive"), ("a", a)("b", "plus")("v", v), t, exclusive_scan, rg, t, v); RBOTH(("exclusive"), ("a", a)("b", "sub")("v", v), t, exclusive_scan, rg, t, v, subt());
		BOTH(("inclusive"), ("a", a)("b", "mix")("un", "x3"), t, transform_inclusive_scan, f, l, t, mix(), x3()); BOTH(("inclusive_init"), ("a", a)("b", "mix")("un", "x3")("v", v), t, transform_inclusive_scan, f, l, t, mix(), x3(), v);
		RBOTH(("inclusive"), ("a", a)("b", "sub")("un", "x3"), t, transform_inclusive_scan, rg, t, subt(), x3()); RBOTH(("inclusive_init"), ("a", a)("b", "mix")("un", "x3")("v", v), t, transform_inclusive_scan, rg, t, mix(), x3(), v);
		BOTH(("exclusive"), ("a", a)("b", "mix")("un", "x3")("v", v), t, transform_exclusive_scan, f, l, t, v, mix(), x3()); RBOTH(("exclusive"), ("a", a)("b", "sub")("un", "x3")("v", v), t, transform_exclusive_scan, rg, t, v, subt(), x3());
		BOTH(("iota"), ("v", v), t, iota, t, v); 
#endif
	}
};
template<typename I> void make(V const& a, int s) { // a new container of 5
	typedef sprout::array<int, 5> A; V none(5, 0); int v = 3 + s % 40;
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size()); sprout::range::range_container<I> rg(f, l);
#define MK(F, FIELDS, ...) { Ev e F; e FIELDS("f", "fixed")("w", none)("l", 0)("h", 5); after(e, snap(__VA_ARGS__)).emit(); }
#define MKS(F, FIELDS, OP, ...) MK(F, FIELDS, sprout::OP<A>(f, l, __VA_ARGS__)) MK(F, FIELDS, sprout::fixed::OP<A>(f, l, __VA_ARGS__)) MK(F, FIELDS, sprout::range::OP<A>(rg, __VA_ARGS__)) MK(F, FIELDS, sprout::range::fixed::OP<A>(rg, __VA_ARGS__))
#define MK0(F, FIELDS, OP) MK(F, FIELDS, sprout::OP<A>(f, l)) MK(F, FIELDS, sprout::fixed::OP<A>(f, l)) MK(F, FIELDS, sprout::range::OP<A>(rg)) MK(F, FIELDS, sprout::range::fixed::OP<A>(rg))
	MK0(("inclusive"), ("a", a)("b", "plus"), partial_sum) MKS(("inclusive"), ("a", a)("b", "mix"), partial_sum, mix())
	MK0(("inclusive"), ("a", a)("b", "plus"), inclusive_scan) MKS(("inclusive"), ("a", a)("b", "mix"), inclusive_scan, mix()) MKS(("inclusive_init"), ("a", a)("b", "mix")("v", v), inclusive_scan, mix(), v)
	MK0(("adjacent"), ("a", a)("b", "sub"), adjacent_difference) MKS(("adjacent"), ("a", a)("b", "mix"), adjacent_difference, mix())
	MKS(("exclusive"), ("a", a)("b", "plus")("v", v), exclusive_scan, v) MKS(("exclusive"), ("a", a)("b", "mix")("v", v), exclusive_scan, v, mix())
	MKS(("inclusive"), ("a", a)("b", "mix")("un", "x3"), transform_inclusive_scan, mix(), x3()) MKS(("inclusive_init"), ("a", a)("b", "mix")("un", "x3")("v", v), transform_inclusive_scan, mix(), x3(), v)
	MKS(("exclusive"), ("a", a)("b", "mix")("un", "x3")("v", v), transform_exclusive_scan, v, mix(), x3())
	MK(("iota"), ("v", v), sprout::iota<A>(v)) MK(("iota"), ("v", v), sprout::fixed::iota<A>(v))
}
#define OUTP(F, FIELDS, ...) { V x(w); Ev e F; e FIELDS("f", "in")("w", w)("l", l0)("h", h0); auto q = __VA_ARGS__; e("r", x)("rl", l0)("rh", h0)("x", int(mmk<O>::raw(q) - (x.data() + l0))).emit(); }
#define D mmk<O>::at(x.data(), l0)
template<typename I, typename O> void outputs(V const& a, int s) {
	int n = (int)a.size(), l0 = 1 + s % 2, h0 = l0 + n + 1, v = 3 + s % 40; V w; for (int k = 0; k < n + 5; ++k) w.push_back(9001 + k);
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), n); sprout::range::range_container<I> rg(f, l);
#define OB(F, FIELDS, OP, ...) OUTP(F, FIELDS, sprout::OP(f, l, D, __VA_ARGS__)) OUTP(F, FIELDS, sprout::range::OP(rg, D, __VA_ARGS__))
#define OB0(F, FIELDS, OP) OUTP(F, FIELDS, sprout::OP(f, l, D)) OUTP(F, FIELDS, sprout::range::OP(rg, D))
	OB0(("inclusive"), ("a", a)("b", "plus"), partial_sum) OB(("inclusive"), ("a", a)("b", "mix"), partial_sum, mix())
	OB0(("inclusive"), ("a", a)("b", "plus"), inclusive_scan) OB(("inclusive"), ("a", a)("b", "mix"), inclusive_scan, mix()) OB(("inclusive_init"), ("a", a)("b", "mix")("v", v), inclusive_scan, mix(), v)
	OB0(("adjacent"), ("a", a)("b", "sub"), adjacent_difference) OB(("adjacent"), ("a", a)("b", "mix"), adjacent_difference, mix())
	OB(("exclusive"), ("a", a)("b", "plus")("v", v), exclusive_scan, v) OB(("exclusive"), ("a", a)("b", "mix")("v", v), exclusive_scan, v, mix())
	OB(("inclusive"), ("a", a)("b", "mix")("un", "x3"), transform_inclusive_scan, mix(), x3()) OB(("inclusive_init"), ("a", a)("b", "mix")("un", "x3")("v", v), transform_inclusive_scan, mix(), x3(), v)
	OB(("exclusive"), ("a", a)("b", "mix")("un", "x3")("v", v), transform_exclusive_scan, v, mix(), x3())
	{ V x(w); Ev e("iota"); e("v", v)("f", "self")("w", w)("l", l0)("h", l0 + n); sprout::iota(mmk<O>::at(x.data(), l0), mmk<O>::at(x.data(), l0 + n), v); e("r", x).emit(); }
	// in place: the destination is the source
	{ V x(w); for (int i = 0; i < n; ++i) x[l0 + i] = a[i]; V y(x); auto ip = [&](char const* o, char const* b) { Ev e(o); e("b", b)("f", "self")("a", a)("w", y)("l", l0)("h", l0 + n)("r", x).emit(); x = y; };
		sprout::partial_sum(D, mmk<O>::at(x.data(), l0 + n), D, mix()); ip("inclusive", "mix"); sprout::adjacent_difference(D, mmk<O>::at(x.data(), l0 + n), D, mix()); ip("adjacent", "mix"); sprout::inclusive_scan(D, mmk<O>::at(x.data(), l0 + n), D); ip("inclusive", "plus");
		sprout::adjacent_difference(D, mmk<O>::at(x.data(), l0 + n), D); ip("adjacent", "sub"); }
}
template<typename I> void folds(V const& a, int s) {
	int n = (int)a.size(), v = 3 + s % 40; V b(n); for (int k = 0; k < n; ++k) b[k] = (3 + 5 * k + s) % 49;
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), n), f2 = mk<I>::at(b.data(), 0), l2 = mk<I>::at(b.data(), n); sprout::range::range_container<I> rg(f, l), rg2(f2, l2);
#define FO(B, ...) { Ev e("fold"); e("a", a)("v", v)("b", B)("r", int(__VA_ARGS__)).emit(); }
	FO("plus", sprout::accumulate(f, l, v)) FO("plus", sprout::range::accumulate(rg, v)) FO("mix", sprout::accumulate(f, l, v, mix())) FO("sub", sprout::accumulate(f, l, v, subt())) FO("sec", sprout::range::accumulate(rg, v, sec())) FO("mix", sprout::range::accumulate(rg, v, mix()))
	FO("plus", sprout::reduce(f, l, v)) FO("plus", sprout::range::reduce(rg, v)) FO("aff", sprout::reduce(f, l, v, aff())) FO("aff", sprout::range::reduce(rg, v, aff())) FO("sec", sprout::reduce(f, l, v, sec()))
	FO("plus", sprout::reduce(f, l) + v) FO("plus", sprout::range::reduce(rg) + v)
	FO("plus", sprout::accumulate(f, l, (long long)v)) FO("plus", sprout::accumulate(f, l, double(v)))
#define F1(B, ...) { Ev e("fold"); e("a", a)("v", v)("b", B)("un", "x3")("r", int(__VA_ARGS__)).emit(); }
	F1("plus", sprout::transform_reduce(f, l, v, sprout::plus<>(), x3())) F1("aff", sprout::transform_reduce(f, l, v, aff(), x3())) F1("aff", sprout::range::transform_reduce(rg, v, aff(), x3()))
#define F2(B1, B2, ...) { Ev e("fold2"); e("a", a)("c", b)("v", v)("b", B1)("b2", B2)("r", int(__VA_ARGS__)).emit(); }
	F2("plus", "mul", sprout::inner_product(f, l, f2, v)) F2("plus", "mul", sprout::range::inner_product(rg, rg2, v)) F2("mix", "sub", sprout::inner_product(f, l, f2, v, mix(), subt())) F2("sub", "mix", sprout::range::inner_product(rg, rg2, v, subt(), mix()))
	F2("plus", "mul", sprout::transform_reduce(f, l, f2, v)) F2("plus", "mul", sprout::range::transform_reduce(rg, rg2, v)) F2("aff", "mix", sprout::transform_reduce(f, l, f2, v, aff(), mix())) F2("aff", "mix", sprout::range::transform_reduce(rg, rg2, v, aff(), mix()))
}
V fill9(int n) { V r; for (int k = 0; k < n; ++k) r.push_back(7001 + k); return r; }
template<typename I> void dests(V const& a, int s) { Into<I> i{a, s}; whole(fill9(1 + s % 8), i); window<8>(fill9(s / 2 % 6), s % 3, s, i); }
void one(V const& a, int s) {
#if PART == 1 || PART == 2
	tag() = "ra"; dests<rai>(a, s); 
#elif PART == 3 || PART == 4
	tag() = "ptr"; dests<int const*>(a, s); 
#elif PART == 5 || PART == 6
	tag() = "fwd"; dests<fwd>(a, s);
#elif PART == 7
	tag() = "make"; make<rai>(a, s); make<fwd>(a, s); make<int const*>(a, s);
#else
	tag() = "out"; outputs<rai, int*>(a, s); outputs<int const*, mfwd>(a, s); outputs<fwd, mrai>(a, s);
	tag() = "fold"; folds<rai>(a, s); folds<int const*>(a, s); folds<fwd>(a, s); folds<bid>(a, s);
#endif
}
int main(int argc, char** argv) {
	init(argc, argv); int s = 0;
	all_seqs(3, thorough() ? 6 : 4, [&](V const& v) { V a(v); for (int& x : a) x = x * 16 + 9; one(a, s++); });
	for (int i = 0; i < (thorough() ? 800 : 150); ++i) { V a; int n = rnd(0, i % 6 ? 10 : 40); for (int k = 0; k < n; ++k) a.push_back(rnd(0, 48)); one(a, rnd(0, 500)); }
	return done();
}
