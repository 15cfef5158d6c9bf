// Copying, replacing, removing, generating algorithms in their functional, fit, range and in-place forms.
#include "conts.hpp"
#include <sprout/algorithm/modifying.hpp>
#include <sprout/algorithm/recurrence.hpp>
#include <sprout/algorithm/recurrence_n.hpp>
#include <sprout/algorithm/unfold.hpp>
#include <sprout/algorithm/unfold_n.hpp>
#include <sprout/range/algorithm.hpp>
using namespace vf;

struct neg { constexpr int operator()(int x) const { return -x; } };
struct x3 { constexpr int operator()(int x) const { return 3 * x + 1; } };
struct subt { constexpr int operator()(int x, int y) const { return x - y; } };
struct mix { constexpr int operator()(int x, int y) const { return 10 * x + y; } };
struct gen { struct result { int val; int nxt; constexpr int const& generated_value() const { return val; } constexpr gen next_generator() const { return gen(nxt); } };
	int v; explicit constexpr gen(int x) : v(x) {} constexpr result operator()() const { return result{v, v + 1}; } };
struct unf { struct result { int val; constexpr int const& generated_value() const { return val; } constexpr int next_generator() const { return val + 1; } };
	constexpr result operator()(int const& v) const { return result{v}; } };
struct mgen { int* v; int operator()() const { return (*v)++; } };
struct rec {
	constexpr int operator()(int a) const { return (a + 1) % 97; }
	constexpr int operator()(int a, int b) const { return (a + 2 * b + 1) % 97; }
	constexpr int operator()(int a, int b, int c) const { return (a + 2 * b + 3 * c + 1) % 97; }
};
#define BOTH(F, FIELDS, T, OP, ...) \
	do { FN(F FIELDS("f", "fixed"), T, sprout::OP(__VA_ARGS__)); FN(F FIELDS("f", "fit"), T, sprout::fit::OP(__VA_ARGS__)); } while (0)
#define RBOTH(F, FIELDS, T, OP, ...) \
	do { FN(F FIELDS("f", "fixed"), T, sprout::range::fixed::OP(__VA_ARGS__)); FN(F FIELDS("f", "fit"), T, sprout::range::fit::OP(__VA_ARGS__)); } while (0)

template<typename I> struct Into { // [f, l) -> container
	V const& a; int salt;
	template<typename T> void operator()(T const& t) const {
		I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size());
		sprout::range::range_container<I> rg(f, l);
		int n = (int)a.size(), m = n ? salt % (n + 1) : 0, i = n ? salt % n : 0, j = n ? salt / 3 % n : 0;
		int v = n ? a[salt % n] : 3, nv = 55, lo = 10 + salt % 7, hi = 20 + salt % 9;
		I mid = mk<I>::at(a.data(), m), p1 = mk<I>::at(a.data(), i), p2 = mk<I>::at(a.data(), j);
		V b(n); for (int k = 0; k < n; ++k) b[k] = 3 + k; I f2 = mk<I>::at(b.data(), 0), l2 = mk<I>::at(b.data(), n);
		sprout::range::range_container<I> rg2(f2, l2);
		BOTH(("copy"), ("a", a), t, copy, f, l, t); RBOTH(("copy"), ("a", a), t, copy, rg, t);
		BOTH(("copy_if"), ("a", a)("u", "key1"), t, copy_if, f, l, t, u_key1()); RBOTH(("copy_if"), ("a", a)("u", "odd"), t, copy_if, rg, t, u_odd());
		BOTH(("copy_n"), ("a", a)("n", m), t, copy_n, f, m, t);
		BOTH(("copy_while"), ("a", a)("u", "small"), t, copy_while, f, l, t, u_small()); RBOTH(("copy_while"), ("a", a)("u", "odd"), t, copy_while, rg, t, u_odd());
		BOTH(("copy_until"), ("a", a)("u", "key1"), t, copy_until, f, l, t, u_key1()); RBOTH(("copy_until"), ("a", a)("u", "odd"), t, copy_until, rg, t, u_odd());
		BOTH(("transform"), ("a", a)("op", "x3"), t, transform, f, l, t, x3()); RBOTH(("transform"), ("a", a)("op", "neg"), t, transform, rg, t, neg());
		BOTH(("transform2"), ("a", a)("b", b)("op", "sub"), t, transform, f, l, f2, t, subt()); RBOTH(("transform2"), ("a", a)("b", b)("op", "mix"), t, transform, rg, rg2, t, mix());
		BOTH(("replace"), ("a", a)("v", v)("n", nv), t, replace_copy, f, l, t, v, nv); RBOTH(("replace"), ("a", a)("v", v)("n", nv), t, replace_copy, rg, t, v, nv);
		BOTH(("replace_if"), ("a", a)("u", "odd")("n", nv), t, replace_copy_if, f, l, t, u_odd(), nv); RBOTH(("replace_if"), ("a", a)("u", "key1")("n", nv), t, replace_copy_if, rg, t, u_key1(), nv);
		BOTH(("remove"), ("a", a)("v", v), t, remove_copy, f, l, t, v); RBOTH(("remove"), ("a", a)("v", v), t, remove_copy, rg, t, v);
		BOTH(("remove_if"), ("a", a)("u", "odd"), t, remove_copy_if, f, l, t, u_odd()); RBOTH(("remove_if"), ("a", a)("u", "key1"), t, remove_copy_if, rg, t, u_key1());
		BOTH(("unique"), ("a", a)("p", "key"), t, unique_copy, f, l, t, p_key()); RBOTH(("unique"), ("a", a)("p", "key"), t, unique_copy, rg, t, p_key());
		BOTH(("unique"), ("a", a)("p", "eq"), t, unique_copy, f, l, t); RBOTH(("unique"), ("a", a)("p", "eq"), t, unique_copy, rg, t);
		BOTH(("rotate"), ("a", a)("m", m), t, rotate_copy, f, mid, l, t); RBOTH(("rotate"), ("a", a)("m", m), t, rotate_copy, rg, mid, t);
		if (n) { BOTH(("swap_element"), ("a", a)("i", i)("j", j), t, swap_element_copy, f, l, t, p1, p2); RBOTH(("swap_element"), ("a", a)("i", i)("j", j), t, swap_element_copy, rg, t, p1, p2); }
		BOTH(("clamp_range"), ("a", a)("c", "lt")("lo", lo)("hi", hi), t, clamp_range_copy, f, l, t, lo, hi); RBOTH(("clamp_range"), ("a", a)("c", "lt")("lo", lo)("hi", hi), t, clamp_range_copy, rg, t, lo, hi);
		BOTH(("clamp_range"), ("a", a)("c", "gt")("lo", hi)("hi", lo), t, clamp_range_copy, f, l, t, hi, lo, c_gt()); RBOTH(("clamp_range"), ("a", a)("c", "gt")("lo", hi)("hi", lo), t, clamp_range_copy, rg, t, hi, lo, c_gt());
		bidi(t, f, l, rg, std::integral_constant<bool, std::is_convertible<typename std::iterator_traits<I>::iterator_category, std::bidirectional_iterator_tag>::value>());
	}
	template<typename T, typename R> void bidi(T const& t, I f, I l, R const& rg, std::true_type) const {
		BOTH(("copy_backward"), ("a", a), t, copy_backward, f, l, t); RBOTH(("copy_backward"), ("a", a), t, copy_backward, rg, t);
		BOTH(("reverse"), ("a", a), t, reverse_copy, f, l, t); RBOTH(("reverse"), ("a", a), t, reverse_copy, rg, t);
	}
	template<typename T, typename R> void bidi(T const&, I, I, R const&, std::false_type) const {}
};
struct Self { // container -> container
	int salt;
	template<typename T> void operator()(T const& t) const {
		int n = (int)t.size(), m = n ? salt % (n + 1) : 0, i = n ? salt % n : 0, j = n ? salt / 3 % n : 0, k = salt % 11;
		int v = n ? t[salt % n] : 3, nv = 55, lo = 10 + salt % 7, hi = 20 + salt % 9;
		BOTH(("replace"), ("v", v)("n", nv), t, replace, t, v, nv);
		BOTH(("replace_if"), ("u", "odd")("n", nv), t, replace_if, t, u_odd(), nv);
		BOTH(("remove"), ("v", v), t, remove, t, v);
		BOTH(("remove_if"), ("u", "key1"), t, remove_if, t, u_key1());
		BOTH(("unique"), ("p", "key"), t, unique, t, p_key()); BOTH(("unique"), ("p", "eq"), t, unique, t);
		BOTH(("reverse"), , t, reverse, t);
		BOTH(("rotate"), ("m", m), t, rotate, t, sprout::next(sprout::begin(t), m));
		if (n) BOTH(("swap_element"), ("i", i)("j", j), t, swap_element, t, sprout::next(sprout::begin(t), i), sprout::next(sprout::begin(t), j));
		BOTH(("clamp_range"), ("c", "lt")("lo", lo)("hi", hi), t, clamp_range, t, lo, hi); BOTH(("clamp_range"), ("c", "key")("lo", lo)("hi", hi), t, clamp_range, t, lo, hi, c_key());
		BOTH(("fill"), ("v", 61), t, fill, t, 61); BOTH(("fill_n"), ("v", 61)("n", k), t, fill_n, t, k, 61);
		BOTH(("generate"), ("v", 71), t, generate, t, gen(71)); BOTH(("generate_n"), ("v", 71)("n", k), t, generate_n, t, k, gen(71));
		BOTH(("unfold"), ("v", 81), t, unfold, t, unf(), 81); BOTH(("unfold_n"), ("v", 81)("n", k), t, unfold_n, t, k, unf(), 81);
		BOTH(("recurrence"), ("b", (V{5})), t, recurrence, t, rec(), 5); BOTH(("recurrence"), ("b", (V{5, 7})), t, recurrence, t, rec(), 5, 7); BOTH(("recurrence"), ("b", (V{2, 3, 4})), t, recurrence, t, rec(), 2, 3, 4);
		BOTH(("recurrence_n"), ("b", (V{5}))("n", k), t, recurrence_n, t, k, rec(), 5); BOTH(("recurrence_n"), ("b", (V{5, 7}))("n", k), t, recurrence_n, t, k, rec(), 5, 7); BOTH(("recurrence_n"), ("b", (V{2, 3, 4}))("n", k), t, recurrence_n, t, k, rec(), 2, 3, 4);
	}
};
template<typename I> void make(V const& a, int salt) { // without destination
	typedef sprout::array<int, 5> A; V none(5, 0);
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size());
	int n = (int)a.size(), m = n ? salt % (n + 1) : 0, v = n ? a[salt % n] : 3; I mid = mk<I>::at(a.data(), m);
#define MK(F, FIELDS, CALL) { Ev e F; e FIELDS("f", "fixed")("w", none)("l", 0)("h", 5); after(e, snap(CALL)).emit(); }
	MK(("copy"), ("a", a), sprout::copy<A>(f, l)) MK(("copy_if"), ("a", a)("u", "odd"), sprout::copy_if<A>(f, l, u_odd())) MK(("copy_n"), ("a", a)("n", m), sprout::copy_n<A>(f, m))
	MK(("copy_while"), ("a", a)("u", "odd"), sprout::copy_while<A>(f, l, u_odd())) MK(("copy_until"), ("a", a)("u", "odd"), sprout::copy_until<A>(f, l, u_odd()))
	MK(("transform"), ("a", a)("op", "x3"), sprout::transform<A>(f, l, x3())) MK(("transform2"), ("a", a)("b", a)("op", "mix"), sprout::transform<A>(f, l, f, mix()))
	MK(("replace"), ("a", a)("v", v)("n", 55), sprout::replace_copy<A>(f, l, v, 55)) MK(("replace_if"), ("a", a)("u", "odd")("n", 55), sprout::replace_copy_if<A>(f, l, u_odd(), 55))
	MK(("remove"), ("a", a)("v", v), sprout::remove_copy<A>(f, l, v)) MK(("remove_if"), ("a", a)("u", "odd"), sprout::remove_copy_if<A>(f, l, u_odd()))
	MK(("unique"), ("a", a)("p", "eq"), sprout::unique_copy<A>(f, l)) MK(("unique"), ("a", a)("p", "key"), sprout::unique_copy<A>(f, l, p_key()))
	MK(("rotate"), ("a", a)("m", m), sprout::rotate_copy<A>(f, mid, l)) MK(("clamp_range"), ("a", a)("c", "lt")("lo", 12)("hi", 23), sprout::clamp_range_copy<A>(f, l, 12, 23)) MK(("clamp_range"), ("a", a)("c", "gt")("lo", 23)("hi", 12), sprout::clamp_range_copy<A>(f, l, 23, 12, c_gt()))
	if (n) MK(("swap_element"), ("a", a)("i", salt % n)("j", salt / 2 % n), sprout::swap_element_copy<A>(f, l, mk<I>::at(a.data(), salt % n), mk<I>::at(a.data(), salt / 2 % n)))
	V b(5, 0);
#define MK0(F, FIELDS, CALL) { Ev e F; e FIELDS("a", b)("f", "fixed")("w", none)("l", 0)("h", 5); after(e, snap(CALL)).emit(); }
	MK0(("fill"), ("v", 9), sprout::fill<A>(9)) MK0(("fill_n"), ("v", 9)("n", m), sprout::fill_n<A>(m, 9)) MK0(("generate"), ("v", 9), sprout::generate<A>(gen(9))) MK0(("generate_n"), ("v", 9)("n", m), sprout::generate_n<A>(m, gen(9)))
	MK0(("unfold"), ("v", 9), sprout::unfold<A>(unf(), 9)) MK0(("unfold_n"), ("v", 9)("n", m), sprout::unfold_n<A>(m, unf(), 9))
	MK0(("recurrence"), ("b", (V{5, 7})), sprout::recurrence<A>(rec(), 5, 7)) MK0(("recurrence_n"), ("b", (V{5, 7}))("n", m), sprout::recurrence_n<A>(m, rec(), 5, 7))
}
template<typename I> void makeb(V const& a) {
	typedef sprout::array<int, 5> A; V none(5, 0);
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), (int)a.size());
	MK(("copy_backward"), ("a", a), sprout::copy_backward<A>(f, l)) MK(("reverse"), ("a", a), sprout::reverse_copy<A>(f, l))
}
// in place: through an output iterator
#define OUTP(F, FIELDS, CALL) { V x(w); Ev e F; e FIELDS("f", "in")("w", w)("l", l0)("h", h0); auto q = CALL; e("r", x)("rl", l0)("rh", h0)("x", int(mmk<O>::raw(q) - (x.data() + l0))).emit(); }
#define OUT2(F, FIELDS, CALL) { V x(w); Ev e F; e FIELDS("f", "in")("w", w)("l", l0)("h", h0); auto q = CALL; e("r", x)("rl", l0)("rh", h0)("x", int(mmk<O>::raw(q.second) - (x.data() + l0)))("y", int(mk<I>::raw(q.first) - a.data())).emit(); }
#define D mmk<O>::at(x.data(), l0)
template<typename I, typename O> void outputs(V const& a, int salt) {
	int n = (int)a.size(), l0 = 1 + salt % 2, h0 = l0 + n, m = n ? salt % (n + 1) : 0; V w; for (int k = 0; k < n + 4; ++k) w.push_back(9001 + k);
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), n), mid = mk<I>::at(a.data(), m); int v = n ? a[salt % n] : 3;
	sprout::range::range_container<I> rg(f, l);
	V b(n); for (int k = 0; k < n; ++k) b[k] = 3 + k; I f2 = mk<I>::at(b.data(), 0), l2 = mk<I>::at(b.data(), n);
	sprout::range::range_container<I> rg2(f2, l2);
	OUTP(("copy"), ("a", a), sprout::copy(f, l, D)) OUTP(("copy"), ("a", a), sprout::range::copy(rg, D)) OUTP(("move"), ("a", a), sprout::move(f, l, D)) OUTP(("move"), ("a", a), sprout::range::move(rg, D))
	OUTP(("copy_if"), ("a", a)("u", "key1"), sprout::copy_if(f, l, D, u_key1())) OUTP(("copy_if"), ("a", a)("u", "odd"), sprout::range::copy_if(rg, D, u_odd()))
	OUTP(("copy_n"), ("a", a)("n", m), sprout::copy_n(f, m, D))
	OUT2(("copy_while"), ("a", a)("u", "key1"), sprout::copy_while(f, l, D, u_key1())) OUTP(("copy_while"), ("a", a)("u", "odd"), sprout::range::copy_while(rg, D, u_odd()))
	OUT2(("copy_until"), ("a", a)("u", "key1"), sprout::copy_until(f, l, D, u_key1())) OUTP(("copy_until"), ("a", a)("u", "odd"), sprout::range::copy_until(rg, D, u_odd()))
	OUTP(("transform"), ("a", a)("op", "x3"), sprout::transform(f, l, D, x3())) OUTP(("transform"), ("a", a)("op", "neg"), sprout::range::transform(rg, D, neg()))
	OUTP(("transform2"), ("a", a)("b", b)("op", "sub"), sprout::transform(f, l, f2, D, subt())) OUTP(("transform2"), ("a", a)("b", b)("op", "mix"), sprout::range::transform(rg, rg2, D, mix()))
	OUTP(("replace"), ("a", a)("v", v)("n", 55), sprout::replace_copy(f, l, D, v, 55)) OUTP(("replace"), ("a", a)("v", v)("n", 55), sprout::range::replace_copy(rg, D, v, 55))
	OUTP(("replace_if"), ("a", a)("u", "odd")("n", 55), sprout::replace_copy_if(f, l, D, u_odd(), 55)) OUTP(("replace_if"), ("a", a)("u", "key1")("n", 55), sprout::range::replace_copy_if(rg, D, u_key1(), 55))
	OUTP(("remove"), ("a", a)("v", v), sprout::remove_copy(f, l, D, v)) OUTP(("remove"), ("a", a)("v", v), sprout::range::remove_copy(rg, D, v))
	OUTP(("remove_if"), ("a", a)("u", "odd"), sprout::remove_copy_if(f, l, D, u_odd())) OUTP(("remove_if"), ("a", a)("u", "key1"), sprout::range::remove_copy_if(rg, D, u_key1()))
	OUTP(("unique"), ("a", a)("p", "eq"), sprout::unique_copy(f, l, D)) OUTP(("unique"), ("a", a)("p", "key"), sprout::range::unique_copy(rg, D, p_key()))
	OUTP(("unique"), ("a", a)("p", "key"), sprout::unique_copy(f, l, D, p_key())) OUTP(("unique"), ("a", a)("p", "eq"), sprout::range::unique_copy(rg, D))
	OUTP(("rotate"), ("a", a)("m", m), sprout::rotate_copy(f, mid, l, D)) OUTP(("rotate"), ("a", a)("m", m), sprout::range::rotate_copy(rg, mid, D))
	OUTP(("clamp_range"), ("a", a)("c", "lt")("lo", 12)("hi", 23), sprout::clamp_range(f, l, D, 12, 23)) OUTP(("clamp_range"), ("a", a)("c", "gt")("lo", 23)("hi", 12), sprout::clamp_range(f, l, D, 23, 12, c_gt()))
	OUTP(("fill_n"), ("v", 61)("n", m), sprout::fill_n(D, m, 61))
	{ int c = 71; OUTP(("generate_n"), ("v", 71)("n", m), sprout::generate_n(D, m, mgen{&c})) }
}
#define OUTB(F, FIELDS, CALL) { V x(w); Ev e F; e FIELDS("f", "in")("w", w)("l", l0)("h", h0); auto q = CALL; e("r", x)("rl", l0)("rh", h0)("x", int(mmk<O>::raw(q) - (x.data() + l0))).emit(); }
template<typename I, typename O> void outputsb(V const& a, int salt) {
	int n = (int)a.size(), l0 = 1 + salt % 2, h0 = l0 + n + salt % 3; V w; for (int k = 0; k < n + 6; ++k) w.push_back(9001 + k);
	I f = mk<I>::at(a.data(), 0), l = mk<I>::at(a.data(), n); sprout::range::range_container<I> rg(f, l);
	OUTB(("copy_backward"), ("a", a), sprout::copy_backward(f, l, mmk<O>::at(x.data(), h0))) OUTB(("copy_backward"), ("a", a), sprout::range::copy_backward(rg, mmk<O>::at(x.data(), h0)))
	OUTB(("copy_backward"), ("a", a), sprout::move_backward(f, l, mmk<O>::at(x.data(), h0))) OUTB(("copy_backward"), ("a", a), sprout::range::move_backward(rg, mmk<O>::at(x.data(), h0)))
	OUTB(("reverse"), ("a", a), sprout::reverse_copy(f, l, D)) OUTB(("reverse"), ("a", a), sprout::range::reverse_copy(rg, D))
}
// in place: the range itself
#define A_(k) mmk<O>::at(x.data() + l0, k)
#define SELF(F, FIELDS, STMT) { V x(w); Ev e F; e FIELDS("f", "self")("w", w)("l", l0)("h", h0); STMT; e("r", x)("rl", l0)("rh", h0).emit(); }
#define SELFR(F, FIELDS, CALL) { V x(w); Ev e F; e FIELDS("f", "self")("w", w)("l", l0)("h", h0); auto q = CALL; e("r", x)("rl", l0)("rh", h0)("x", int(mmk<O>::raw(q) - (x.data() + l0))).emit(); }
template<typename O> void selfs(V const& a, int salt) {
	int n = (int)a.size(), l0 = 1 + salt % 2, h0 = l0 + n, m = n ? salt % (n + 1) : 0; V w(l0, -5); w.insert(w.end(), a.begin(), a.end()); w.insert(w.end(), 2, -7);
	int v = n ? a[salt % n] : 3; typedef sprout::range::range_container<O> R;
	SELF(("fill"), ("v", 61), sprout::fill(A_(0), A_(n), 61)) SELF(("fill"), ("v", 61), sprout::range::fill(R(A_(0), A_(n)), 61))
	{ int c = 71; SELF(("generate"), ("v", 71), sprout::generate(A_(0), A_(n), mgen{&c})) c = 81; SELF(("generate"), ("v", 81), sprout::range::generate(R(A_(0), A_(n)), mgen{&c})) }
	SELF(("replace"), ("v", v)("n", 55), sprout::replace(A_(0), A_(n), v, 55)) SELF(("replace"), ("v", v)("n", 55), sprout::range::replace(R(A_(0), A_(n)), v, 55))
	SELF(("replace_if"), ("u", "odd")("n", 55), sprout::replace_if(A_(0), A_(n), u_odd(), 55)) SELF(("replace_if"), ("u", "key1")("n", 55), sprout::range::replace_if(R(A_(0), A_(n)), u_key1(), 55))
	SELFR(("remove"), ("v", v), sprout::remove(A_(0), A_(n), v)) SELFR(("remove"), ("v", v), sprout::range::remove(R(A_(0), A_(n)), v))
	SELFR(("remove_if"), ("u", "odd"), sprout::remove_if(A_(0), A_(n), u_odd())) SELFR(("remove_if"), ("u", "key1"), sprout::range::remove_if(R(A_(0), A_(n)), u_key1()))
	SELFR(("unique"), ("p", "eq"), sprout::unique(A_(0), A_(n))) SELFR(("unique"), ("p", "key"), sprout::range::unique(R(A_(0), A_(n)), p_key()))
	SELFR(("unique"), ("p", "key"), sprout::unique(A_(0), A_(n), p_key())) SELFR(("unique"), ("p", "eq"), sprout::range::unique(R(A_(0), A_(n))))
	SELFR(("rotate"), ("m", m), sprout::rotate(A_(0), A_(m), A_(n))) SELFR(("rotate"), ("m", m), sprout::range::rotate(R(A_(0), A_(n)), A_(m)))
	if (n) SELF(("swap_element"), ("i", salt % n)("j", salt / 3 % n), sprout::iter_swap(A_(salt % n), A_(salt / 3 % n)))
	for (int r = 0; r < 2; ++r) { V x(a), y; for (int k = 0; k < m; ++k) y.push_back(700 + k); V y0(y); Ev e("swap_ranges"); e("a", a)("b", y0);
		O q = r ? sprout::range::swap_ranges(R(mmk<O>::at(y.data(), 0), mmk<O>::at(y.data(), m)), R(mmk<O>::at(x.data(), 0), mmk<O>::at(x.data(), n))) : sprout::swap_ranges(mmk<O>::at(y.data(), 0), mmk<O>::at(y.data(), m), mmk<O>::at(x.data(), 0));
		e("r", x)("s", y)("x", int(mmk<O>::raw(q) - x.data())).emit(); }
}
template<typename O> void selfsb(V const& a, int salt) {
	int n = (int)a.size(), l0 = 1 + salt % 2, h0 = l0 + n; V w(l0, -5); w.insert(w.end(), a.begin(), a.end()); w.insert(w.end(), 2, -7); typedef sprout::range::range_container<O> R;
	SELF(("reverse"), , sprout::reverse(A_(0), A_(n))) SELF(("reverse"), , sprout::range::reverse(R(A_(0), A_(n))))
}
V fill9(int n) { V r; for (int k = 0; k < n; ++k) r.push_back(7001 + k); return r; }
template<typename I> void dests(V const& a, int salt) {
	Into<I> i{a, salt};
	whole(fill9(1 + salt % 8), i);
	window<8>(fill9(salt / 2 % 6), salt % 3, salt, i);
}
void one(V const& k, int salt) {
	V t = tagged(k);
	V const& a = salt % 2 ? t : k;
#if PART == 1
	tag() = "ra"; dests<rai>(a, salt); make<rai>(a, salt); makeb<rai>(a);
#elif PART == 2
	tag() = "ptr"; dests<int const*>(a, salt); make<int const*>(a, salt); makeb<int const*>(a);
#elif PART == 3
	tag() = "bid"; dests<bid>(a, salt); make<fwd>(a, salt); makeb<bid>(a);
#elif PART == 4
	if (a.size() < 9) { tag() = "array"; whole(a, Self{salt}); tag() = "window"; if (a.size() < 9) window<9>(a, salt % (10 - (int)a.size()), salt, Self{salt}); }
#else
	tag() = "out"; outputs<rai, int*>(a, salt); outputs<int const*, mfwd>(a, salt); outputs<fwd, mrai>(a, salt); outputsb<bid, mbid>(a, salt); outputsb<rai, int*>(a, salt); outputsb<int const*, mrai>(a, salt);
	tag() = "self"; selfs<int*>(a, salt); selfs<mfwd>(a, salt); selfs<mrai>(a, salt); selfsb<int*>(a, salt); selfsb<mbid>(a, salt); selfsb<mrai>(a, salt);
#endif
}
int main(int argc, char** argv) {
	init(argc, argv);
	int salt = 0;
	all_seqs(3, thorough() ? 6 : 4, [&](V const& v) { one(v, salt++); });
	for (int i = 0; i < (thorough() ? 1200 : 220); ++i) one(rnd_seq(rnd(2, 4), rnd(5, i % 5 ? 9 : 20)), salt + rnd(0, 500));
	return done();
}
