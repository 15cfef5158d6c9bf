// C35: operator function objects (part 1), bind in all shapes (parts 2-4), wrappers, member adaptors, composition and hashes (part 5).
#include "vf.hpp"
#include <sprout/functional.hpp>
#include <sprout/functional/invoke.hpp>
#include <sprout/functional/transparent.hpp>
#include <sprout/functional/polymorphic.hpp>
#include <sprout/functional/bind/literals.hpp>
#include <sprout/array.hpp>
#include <sprout/tuple.hpp>
#include <sprout/string.hpp>
#include <functional>
#include <memory>
#ifndef PART
#define PART 1
#endif
using vf::Ev;
typedef std::vector<int> V;
template<typename T> struct nm;
#define NM(T, s) template<> struct nm<T> { static char const* v() { return s; } };
NM(int, "int") NM(unsigned char, "uchar") NM(signed char, "schar") NM(long long, "int") NM(short, "int") NM(double, "double")
static bool fitsop(std::string const& f, int b) { if ((f == "divides" || f == "modulus") && b == 0) return false; return true; }
// ---------------------------------------------------------------- part 1
#if PART == 1
template<typename T> struct Num { T v; };
#define BIN(name) \
	if (fitsop(#name, b)) { T const x = T(a), y = T(b); T u = x, w = y; \
		{ Ev e("typed"); e("f", #name)("t", nm<T>::v())("a", int(x))("b", int(y))("r", V{int(sprout::name<T>()(x, y)), int(sprout::name<T>()(u, w)), int(sprout::bind2nd(sprout::name<T>(), y)(x)), int(sprout::bind1st(sprout::name<T>(), x)(y)), \
			int(sprout::bind(sprout::name<T>(), sprout::_2, sprout::_1)(y, x)), int(sprout::bind(sprout::name<T>(), sprout::_, sprout::_)(x, y))}); e.emit(); } \
		{ Ev e("free"); e("f", #name)("a", int(x))("b", int(y))("r", V{int(sprout::name<>()(x, y)), int(sprout::name<>()(u, w)), int(sprout::name##_(x, y)), int(sprout::name##_(u, T(b))), int(sprout::bind2nd_(sprout::name<>(), T(b))(x)), int(sprout::bind1st_(sprout::name<>(), T(a))(y)), \
			int(sprout::bind2nd(sprout::name<>(), y)(x)), int(sprout::bind1st(sprout::name<>(), x)(y)), int(sprout::bind(sprout::name##_, sprout::_2, y)(y, x))}); e.emit(); } }
#define BINF(name) \
	if (fitsop(#name, b)) { T const x = T(a), y = T(b); { Ev e("free"); e("f", #name)("a", int(x))("b", int(y))("r", V{int(sprout::name<>()(x, y)), int(sprout::name##_(x, T(b))), int(sprout::bind2nd_(sprout::name<>(), T(b))(x)), int(sprout::bind1st_(sprout::name<>(), T(a))(y))}); e.emit(); } }
#define UN(name) \
	{ T const x = T(a); T u = x; Ev e("typed"); e("f", #name)("t", nm<T>::v())("a", int(x))("b", 0)("r", V{int(sprout::name<T>()(x)), int(sprout::name<T>()(u))}); e.emit(); \
	Ev g("free"); g("f", #name)("a", int(x))("b", 0)("r", V{int(sprout::name<>()(x)), int(sprout::name<>()(u)), int(sprout::name##_(T(a))), int(sprout::bind(sprout::name##_, sprout::_1)(x))}); g.emit(); }
// assignments: the result must be the target itself
#define ASG(name) \
	if (fitsop(name##_op, b)) { T x = T(a); T const y = T(b); auto&& r = sprout::name<>()(x, y); T x2 = T(a); auto&& r2 = sprout::name##_(x2, T(b)); T x3 = T(a); sprout::bind(sprout::name##_, sprout::ref(x3), sprout::_1)(y); T x4 = T(a); sprout::bind(sprout::name##_, sprout::_1, y)(x4); \
		Ev e("assign"); e("f", name##_op)("t", nm<T>::v())("a", int(T(a)))("b", int(y))("r", V{int(x), int(x2), int(x3), int(x4)})("same", &r == &x && &r2 == &x2); e.emit(); }
static char const* const assign_op = "assign", *const plus_assign_op = "plus", *const minus_assign_op = "minus", *const multiplies_assign_op = "multiplies", *const divides_assign_op = "divides", *const modulus_assign_op = "modulus",
	*const bit_and_assign_op = "bit_and", *const bit_or_assign_op = "bit_or", *const bit_xor_assign_op = "bit_xor", *const shift_left_assign_op = "shift_left", *const shift_right_assign_op = "shift_right";
template<typename T> void arith(int a, int b) {
	BIN(plus) BIN(minus) BIN(multiplies) BIN(divides) BIN(equal_to) BIN(not_equal_to) BIN(less) BIN(greater) BIN(less_equal) BIN(greater_equal) BIN(logical_and) BIN(logical_or)
	if (b == 0) { UN(negate) UN(posite) UN(logical_not) }
	ASG(assign) ASG(plus_assign) ASG(minus_assign) ASG(multiplies_assign) ASG(divides_assign)
	if (b == 0) { T x = T(a); auto&& r = sprout::pre_increment<>()(x); T y = T(a); auto q = sprout::post_increment_(y); T z = T(a); auto&& d = sprout::pre_decrement_(z); T w = T(a); auto k = sprout::post_decrement<>()(w);
		Ev e("step"); e("t", nm<T>::v())("a", int(T(a)))("inc", V{int(x), int(y)})("dec", V{int(z), int(w)})("old", V{int(q), int(k)})("same", &r == &x && &d == &z); e.emit(); }
}
template<typename T> void integral(int a, int b) {
	arith<T>(a, b); BIN(modulus) BIN(bit_and) BIN(bit_or) BIN(bit_xor) if (b == 0) { UN(bit_not) }
	ASG(modulus_assign) ASG(bit_and_assign) ASG(bit_or_assign) ASG(bit_xor_assign)
	if (b >= 0 && b < 6 && a >= 0) { BINF(shift_left) BINF(shift_right) ASG(shift_left_assign) ASG(shift_right_assign) }
}
static void access() {
	for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) {
		int x[6] = {3, 1, 4, 1, 5, 9}; Num<int> n = {i * 10 + j}; Num<int> const cn = n; int Num<int>::* pm = &Num<int>::v; int* p = x + i; std::shared_ptr<int> sp(new int(j)); sprout::array<int, 6> sa = {{2, 7, 1, 8, 2, 8}};
		bool same = &sprout::subscript<>()(x, j) == &x[j] && &sprout::subscript_(sa, i) == &sa[i] && &sprout::dereference_(p) == p && sprout::dereference<>()(sp) == j && sprout::address_of<>()(x[j]) == &x[j] && sprout::address_of_(n) == &n
			&& &sprout::member<>()(n, pm) == &n.v && &sprout::member_(cn, pm) == &cn.v && &sprout::member_pointer<>()(&n, pm) == &n.v && &sprout::member_pointer_(&cn, pm) == &cn.v
			&& &sprout::comma<>()(x[i], x[j]) == &x[j] && &sprout::comma_(n, x[i]) == &x[i] && &sprout::cond<>()(i < j, x[i], x[j]) == &x[i < j ? i : j] && &sprout::cond_(i == j, x[i], x[j]) == &x[i == j ? i : j];
		int r = sprout::cond_(i > j, i, j); int c = sprout::call_fun<>()([](int u, int w) { return u * 10 + w; }, i, j), c2 = sprout::call_fun_(sprout::minus_, i, j);
		Ev e("access"); e("i", i)("j", j)("same", same)("max", r)("call", c)("dif", c2); e.emit();
	}
}
#endif
// ---------------------------------------------------------------- bind
struct Seen { int v; char cat; int who; };                       // an argument as the target saw it
struct Call { int id; std::vector<Seen> a; };
static std::vector<Call> calls;
static int rt_ref = 60, rt_ref2 = 61;
static void const* slots[6];                                      // addresses of the arguments of the outer call
template<typename T> Seen seen(T&& x) {
	Seen s = {int(x), std::is_lvalue_reference<T>::value ? (std::is_const<typename std::remove_reference<T>::type>::value ? 'c' : 'l') : 'r', 0};
	for (int k = 1; k < 6; ++k) if (static_cast<void const*>(&x) == slots[k]) s.who = k; if (static_cast<void const*>(&x) == &rt_ref) s.who = 10; if (static_cast<void const*>(&x) == &rt_ref2) s.who = 11; return s;
}
static int code(Call const& c) { int h = c.id; for (auto& s : c.a) h = (h * 31 + s.v) % 10007; return h; }
template<int ID> struct Target {
	template<typename... A> int operator()(A&&... a) const { Call c; c.id = ID; c.a = {seen(static_cast<A&&>(a))...}; calls.push_back(c); return code(c); }
};
template<int ID> int Fun(int a, int b) { return Target<ID>()(a, b); }
static std::string show() {
	std::string s; for (auto& c : calls) { std::string q; for (auto& x : c.a) q += std::string(q.empty() ? "" : ",") + "{\"v\":" + vf::js(x.v) + ",\"cat\":\"" + x.cat + "\",\"who\":" + vf::js(x.who) + "}"; s += (s.empty() ? "" : ",") + ("{\"id\":" + vf::js(c.id) + ",\"a\":[" + q + "]}"); }
	return "[" + s + "]";
}
// bound arguments: J() describes, make() builds
template<int X> struct BV { static std::string js() { return "{\"k\":\"v\",\"x\":" + vf::js(X) + "}"; } static int make() { return X; } enum { pos = 0, need = 0 }; };
struct BR { static std::string js() { return "{\"k\":\"ref\",\"x\":" + vf::js(rt_ref) + "}"; } static sprout::reference_wrapper<int> make() { return sprout::ref(rt_ref); } enum { pos = 0, need = 0 }; };
struct BCR { static std::string js() { return "{\"k\":\"cref\",\"x\":" + vf::js(rt_ref2) + "}"; } static std::reference_wrapper<int const> make() { return std::cref(rt_ref2); } enum { pos = 0, need = 0 }; };
template<int N> struct BP { static std::string js() { return "{\"k\":\"p\",\"x\":" + vf::js(N) + "}"; } static sprout::placeholder<N> make() { return sprout::placeholder<N>(); } enum { pos = 0, need = N }; };
struct BPos { static std::string js() { return "{\"k\":\"pos\",\"x\":0}"; } static sprout::positional_placeholder make() { return sprout::_; } enum { pos = 1, need = 0 }; };
template<int N> struct BT { static std::string js() { return "{\"k\":\"tail\",\"x\":" + vf::js(N) + "}"; } static sprout::variadic_placeholder<N> make() { return sprout::variadic_placeholder<N>(); } enum { pos = 0, need = N }; };
template<typename... B> std::string jsb() { std::string s; std::string p[] = {std::string(), B::js()...}; for (std::size_t k = 1; k <= sizeof...(B); ++k) s += (k > 1 ? "," : "") + p[k]; return "[" + s + "]"; }
template<int ID, typename... B> struct BN { static std::string js() { return "{\"k\":\"bind\",\"c\":false,\"x\":" + vf::js(ID) + ",\"b\":" + jsb<B...>() + "}"; } static auto make() -> decltype(sprout::bind(Target<ID>(), B::make()...)) { return sprout::bind(Target<ID>(), B::make()...); } enum { pos = 0, need = 3 }; };
template<int ID, typename... B> struct BCN { static std::string js() { return "{\"k\":\"bind\",\"c\":true,\"x\":" + vf::js(ID) + ",\"b\":" + jsb<B...>() + "}"; } static auto make() -> decltype(sprout::cbind(Target<ID>(), B::make()...)) { return sprout::cbind(Target<ID>(), B::make()...); } enum { pos = 0, need = 3 }; };
static void put(char const* mode, bool cst, std::string const& bs, V const& args, std::string const& cats, int r) {
	Ev e("bind"); e("m", mode)("cst", cst)("bs", vf::raw{bs})("args", args)("cats", vf::raw{cats})("log", vf::raw{show()})("r", r); e.emit(); calls.clear();
}
template<typename F> void invoke_all(F& f, char const* mode, bool cst, std::string const& bs) {     // three arguments of every category, plus a fourth nobody asked for
	int x = 71, y = 72, z = 73; int const cx = 81, cz = 83; slots[1] = &x; slots[2] = &y; slots[3] = &z; int r = int(f(x, y, z)); put(mode, cst, bs, V{71, 72, 73}, "[\"l\",\"l\",\"l\"]", r);
	slots[1] = &cx; slots[2] = 0; slots[3] = &z; r = int(f(cx, 92, z)); put(mode, cst, bs, V{81, 92, 73}, "[\"c\",\"r\",\"l\"]", r);
	slots[1] = 0; slots[2] = &y; slots[3] = &cz; slots[4] = &x; r = int(f(91, y, cz, x)); put(mode, cst, bs, V{91, 72, 83, 71}, "[\"r\",\"l\",\"c\",\"l\"]", r);
	for (auto& s : slots) s = 0;
}
// fewer arguments, when nothing asks for more
template<int Need, typename F> typename std::enable_if<Need <= 0>::type fewer(F& f, char const* m, bool c, std::string const& bs) { int r = int(f()); put(m, c, bs, V{}, "[]", r); }
template<int Need, typename F> typename std::enable_if<(Need > 0)>::type fewer(F&, char const*, bool, std::string const&) {}
template<int Need, typename F> typename std::enable_if<Need <= 1>::type fewer1(F& f, char const* m, bool c, std::string const& bs) { int r = int(f(91)); put(m, c, bs, V{91}, "[\"r\"]", r); }
template<int Need, typename F> typename std::enable_if<(Need > 1)>::type fewer1(F&, char const*, bool, std::string const&) {}
template<typename... B> struct Need { enum { value = 0 }; };
template<typename H, typename... B> struct Need<H, B...> { enum { rest = Need<B...>::value, value = int(H::need) > int(rest) ? int(H::need) : int(rest) }; };
template<typename... B> struct Pos { enum { value = 0 }; };
template<typename H, typename... B> struct Pos<H, B...> { enum { value = H::pos + Pos<B...>::value }; };
template<typename... B> struct Fit { enum { need = Need<B...>::value, pos = Pos<B...>::value, value = int(need) > int(pos) ? int(need) : int(pos) }; };
template<typename... B> void shapes(std::true_type) {
	std::string const bs = jsb<B...>(); int const nd = int(Fit<B...>::value);
	{ auto f = sprout::bind(Target<1>(), B::make()...); invoke_all(f, "bind", false, bs); fewer<nd>(f, "bind", false, bs); fewer1<nd>(f, "bind", false, bs); auto const& cf = f; invoke_all(cf, "bind", true, bs); }
	{ auto f = sprout::cbind(Target<1>(), B::make()...); invoke_all(f, "cbind", true, bs); }
}
template<typename... B> void rshapes() {
	std::string const bs = jsb<B...>(); { auto f = sprout::bind<long>(Target<1>(), B::make()...); invoke_all(f, "bind<R>", false, bs); auto const& cf = f; invoke_all(cf, "bind<R>", true, bs); }
	{ auto f = sprout::cbind<long>(Target<1>(), B::make()...); invoke_all(f, "cbind<R>", true, bs); }
	{ auto f = sprout::bind<void>(Target<1>(), B::make()...); int x = 71, y = 72, z = 73; slots[1] = &x; slots[2] = &y; slots[3] = &z; f(x, y, z); put("void", false, bs, V{71, 72, 73}, "[\"l\",\"l\",\"l\"]", -1); auto const& cf = f; cf(x, y, z); put("void", true, bs, V{71, 72, 73}, "[\"l\",\"l\",\"l\"]", -1); for (auto& s : slots) s = 0; }
}
template<typename... B> void shapes(std::false_type) {}
template<typename... B> void one() { shapes<B...>(std::integral_constant<bool, (int(Fit<B...>::value) <= 3)>()); }
// every choice for a place
template<template<typename> class Do> struct Nothing {};
#define CHOICES(X) X(BV<50>) X(BR) X(BP<1>) X(BP<2>) X(BP<3>)
typedef BN<2, BP<2>, BP<1>, BV<51> > N1; typedef BCN<3, BP<3>, BP<3> > N2; typedef BN<4, BP<1>, BN<5, BP<1>, BP<2> > > N3;
template<typename... B> struct Tup {};
template<typename A> void two() {
#define X(B) one<A, B>();
	X(BV<50>) X(BR) X(BCR) X(BP<1>) X(BP<2>) X(BP<3>) X(BPos) X(N1) X(BT<0>) X(BT<1>) X(BT<2>) X(BT<3>)
#undef X
}
template<typename A, typename B> void three() {
#define X(C) one<A, B, C>();
	X(BV<50>) X(BP<1>) X(BP<2>) X(BP<3>) X(BPos)
#undef X
}
template<typename A> void twothree() { three<A, BV<52> >(); three<A, BP<1> >(); three<A, BP<2> >(); three<A, BP<3> >(); three<A, BPos>(); }
#if PART == 6
static int Un(int a) { return Target<8>()(a) % 3; }
static int Bi(int a, int b) { return Target<8>()(a, b) % 3; }
static int Nul() { return Target<8>()(); }
struct Strict2 { typedef int first_argument_type; typedef int second_argument_type; typedef bool result_type; bool operator()(int a, int b) const { return Bi(a, b) == 1; } };
struct Free2 { template<typename A, typename B> bool operator()(A const& a, B const& b) const { return Bi(a, b) == 1; } };
struct Strict1 { typedef int argument_type; typedef bool result_type; bool operator()(int a) const { return Un(a) == 1; } };
struct Free1 { template<typename A> bool operator()(A const& a) const { return Un(a) == 1; } };
struct Base { int d; int const k; Base(int x, int y) : d(x), k(y) {}
	int zero() { return Target<9>()(d); } int czero() const { return Target<9>()(d + 1); } int one(int a) { return Target<9>()(d, a); } int cone(int a) const { return Target<9>()(d + 1, a); } int two(int a, int& b) { b += a; return Target<9>()(d, a, b); } int ctwo(int a, int b) const { return Target<9>()(d + 1, a, b); }
	int vzero() volatile { return Target<9>()(int(d) + 2); } int cvone(int a) const volatile { return Target<9>()(int(d) + 3, a); } };
struct Derived : Base { Derived(int x, int y) : Base(x, y) {} };
// one call of the target with these values is expected; r is what came back
static void put1(char const* f, int id, V const& want, int a, int b, std::vector<int> const& rs, int kind) { Ev e("wrap"); e("f", f)("id", id)("want", want)("a", a)("b", b)("kind", kind)("log", vf::raw{show()})("r", rs); e.emit(); calls.clear(); }
#define ONE(name, id, want, kind, expr) { int r = int(expr); put1(name, id, want, a, b, V{r}, kind); }
static void wrap(int a, int b) {
	typedef V W; int const ca = a, cb = b;
	ONE("not1", 8, (W{a}), 1, sprout::not1(Strict1())(a)) ONE("not1", 8, (W{a}), 1, sprout::not1(Free1())(ca)) ONE("not2", 8, (W{a, b}), 1, sprout::not2(Strict2())(a, b)) ONE("not2", 8, (W{a, b}), 1, sprout::not2(Free2())(ca, b))
	ONE("ptr", 8, (W{a}), 3, sprout::ptr_fun(&Un)(a)) ONE("ptr", 8, (W{a, b}), 3, sprout::ptr_fun(&Bi)(a, b)) ONE("ptr", 8, (W{b, a}), 3, sprout::bind1st(sprout::ptr_fun(&Bi), b)(a)) ONE("ptr", 8, (W{a, b}), 3, sprout::bind2nd(sprout::ptr_fun(&Bi), b)(a))
	ONE("b1", 1, (W{a, b}), 0, sprout::bind1st(Target<1>(), a)(b)) ONE("b1", 1, (W{a, b}), 0, sprout::bind1st(Target<1>(), ca)(cb)) ONE("b2", 1, (W{b, a}), 0, sprout::bind2nd(Target<1>(), a)(b)) ONE("b2", 1, (W{b, a}), 0, sprout::bind2nd(Target<1>(), ca)(cb))
	{ Target<1> t; ONE("b1", 1, (W{a, b}), 0, sprout::bind1st_(t, a)(b)) ONE("b1", 1, (W{a, b}), 0, sprout::bind1st_(Target<1>(), ca)(cb)) ONE("b2", 1, (W{b, a}), 0, sprout::bind2nd_(t, a)(b)) ONE("b2", 1, (W{b, a}), 0, sprout::bind2nd_(Target<1>(), ca)(7 * 0 + b)) }
	{ Target<1> t; Target<1> const ct = t; auto rw = sprout::ref(t); auto c = sprout::cref(t); ONE("ref", 1, (W{a, b}), 0, rw(a, b)) ONE("ref", 1, (W{b, a}), 0, c(cb, a)) ONE("ref", 1, (W{b}), 0, sprout::ref(ct)(cb)) ONE("ref", 1, (W{}), 0, rw()) auto pf = sprout::ref(Fun<1>); ONE("ref", 1, (W{a, b}), 0, pf(a, b)) }
	ONE("invoke", 1, (W{a, b}), 0, sprout::invoke(Target<1>(), a, b)) ONE("invoke", 1, (W{b, a}), 0, sprout::invoke(&Fun<1>, b, a)) ONE("invoke", 8, (W{}), 0, sprout::invoke(Nul))
	ONE("call_fun", 1, (W{a, b}), 0, sprout::call_fun<>()(Target<1>(), a, cb)) ONE("call_fun", 1, (W{b, a}), 0, sprout::call_fun_(Fun<1>, b, ca))
	// equivalence: both directions asked, each at most once
	{ bool r1 = sprout::equiv(Strict2())(a, b); calls.clear(); bool r2 = sprout::equiv(Free2())(ca, b); calls.clear(); bool l = Bi(a, b) == 1, g = Bi(b, a) == 1; calls.clear(); Ev e("equiv"); e("a", a)("b", b)("lt", l)("gt", g)("r", V{r1, r2})("dflt", V{sprout::equiv()(a, b), sprout::equiv(sprout::less<>())(a, cb), sprout::equiv(sprout::greater<int>())(a, b), sprout::equiv(sprout::less<int>())(a, b)}); e.emit(); }
	// reference wrappers alias
	{ int x = a, y = b; auto r = sprout::ref(x); auto q = r; auto c = sprout::cref(x); auto rr = sprout::ref(r); auto cc = sprout::cref(q); bool same = &r.get() == &x && &q.get() == &x && &c.get() == &x && r.get_pointer() == &x && &rr.get() == &x && &cc.get() == &x && &sprout::unwrap_ref(r) == &x && &sprout::unwrap_ref(x) == &x && &static_cast<int&>(r) == &x && sprout::get_pointer(r) == &x;
		r.get() = a + 5; int s1 = c, s2 = x; q = sprout::ref(y); q.get() += 1; int& z = q; z += 1; Ev e("alias"); e("a", a)("b", b)("same", same && &q.get() == &y && &r.get() == &x)("x", V{s1, s2, x, int(r), int(c), int(rr)})("y", V{y, int(q)}); e.emit(); }
}
#define PM(name, want, expr) { int r = int(expr); put1(name, 9, want, a, b, V{r}, 0); }
static void members(int a, int b) {
	typedef V W; Derived o(a, b); Derived const co(a, b); Base& bo = o; Base const& cbo = co; std::shared_ptr<Base> sp(new Base(a, b)); std::shared_ptr<Base const> scp(new Base(a, b)); std::unique_ptr<Base> up(new Base(a, b)); Derived volatile vo(a, b); int t;
	{ auto f = sprout::mem_fn(&Base::zero); PM("zero", (W{a}), f(o)) PM("zero", (W{a}), f(bo)) PM("zero", (W{a}), f(&o)) PM("zero", (W{a}), f(sp)) PM("zero", (W{a}), f(up)) PM("zero", (W{a}), sprout::mem_fun(&Base::zero)(&o)) PM("zero", (W{a}), sprout::mem_fun_ref(&Base::zero)(o)) }
	{ auto f = sprout::mem_fn(&Base::czero); PM("czero", (W{a + 1}), f(o)) PM("czero", (W{a + 1}), f(cbo)) PM("czero", (W{a + 1}), f(&co)) PM("czero", (W{a + 1}), f(sp)) PM("czero", (W{a + 1}), f(scp)) PM("czero", (W{a + 1}), f(Base(a, b))) PM("czero", (W{a + 1}), sprout::mem_fun(&Base::czero)(&co)) PM("czero", (W{a + 1}), sprout::mem_fun_ref(&Base::czero)(co)) }
	{ auto f = sprout::mem_fn(&Base::one); PM("one", (W{a, b}), f(o, b)) PM("one", (W{a, b}), f(bo, b)) PM("one", (W{a, b}), f(&o, b)) PM("one", (W{a, b}), f(sp, b)) PM("one", (W{a, b}), sprout::mem_fun(&Base::one)(&o, b)) PM("one", (W{a, b}), sprout::mem_fun_ref(&Base::one)(o, b)) }
	{ auto f = sprout::mem_fn(&Base::cone); PM("cone", (W{a + 1, b}), f(co, b)) PM("cone", (W{a + 1, b}), f(cbo, b)) PM("cone", (W{a + 1, b}), f(&o, b)) PM("cone", (W{a + 1, b}), f(scp, b)) PM("cone", (W{a + 1, b}), sprout::mem_fun(&Base::cone)(&co, b)) PM("cone", (W{a + 1, b}), sprout::mem_fun_ref(&Base::cone)(co, b)) }
	{ auto f = sprout::mem_fn(&Base::two); t = 3; PM("two", (W{a, b, b + 3}), f(o, b, t)) PM("two", (W{a, b, 2 * b + 3}), f(&o, b, t)) PM("two", (W{a, b, 3 * b + 3}), f(sp, b, t)) auto g = sprout::mem_fn(&Base::ctwo); PM("ctwo", (W{a + 1, b, a}), g(co, b, a)) PM("ctwo", (W{a + 1, b, a}), g(&o, b, a)) PM("ctwo", (W{a + 1, b, a}), g(scp, b, a)) }
	{ auto f = sprout::mem_fn(&Base::vzero); PM("vzero", (W{a + 2}), f(o)) PM("vzero", (W{a + 2}), f(vo)) PM("vzero", (W{a + 2}), f(&vo)) PM("vzero", (W{a + 2}), f(sp)) auto g = sprout::mem_fn(&Base::cvone); PM("cvone", (W{a + 3, b}), g(co, b)) PM("cvone", (W{a + 3, b}), g(vo, b)) PM("cvone", (W{a + 3, b}), g(&co, b)) PM("cvone", (W{a + 3, b}), g(sp, b)) }
	using sprout::_1; using sprout::_2;
	PM("one", (W{a, b}), sprout::bind(&Base::one, _2, _1)(b, o)) PM("one", (W{a, b}), sprout::bind(&Base::one, &o, _1)(b)) PM("one", (W{a, b}), sprout::bind(&Base::one, sp, b)()) PM("one", (W{a, b}), sprout::bind(&Base::one, sprout::ref(o), _1)(b)) PM("cone", (W{a + 1, b}), sprout::bind(&Base::cone, _1, b)(co)) PM("cone", (W{a + 1, b}), sprout::cbind(&Base::cone, co, _1)(b)) PM("cone", (W{a + 1, b}), sprout::bind<int>(&Base::cone, sprout::_, b)(&co))
	PM("one", (W{a, b}), sprout::invoke(&Base::one, o, b)) PM("cone", (W{a + 1, b}), sprout::invoke(&Base::cone, co, b)) PM("one", (W{a, b}), sprout::invoke(&Base::one, &o, b)) PM("one", (W{a, b}), sprout::invoke(&Base::one, sp, b)) PM("czero", (W{a + 1}), sprout::invoke(&Base::czero, co)) PM("czero", (W{a + 1}), sprout::invoke(&Base::czero, &co))
	{ auto f = sprout::mem_fn(&Base::d); auto g = sprout::mem_fn(&Base::k); Base const* cp = &co; Base* p = &o;
		bool same = &f(o) == &o.d && &f(bo) == &o.d && &f(&o) == &o.d && &f(co) == &co.d && &f(cp) == &co.d && &f(p) == &o.d && &f(sp) == &sp->d && &g(o) == &o.k && &g(cp) == &co.k && &f(scp) == &scp->d && &sprout::invoke(&Base::d, o) == &o.d && &sprout::invoke(&Base::d, &o) == &o.d && &sprout::invoke(&Base::d, cp) == &co.d && sprout::bind(&Base::d, _1)(o) == a && sprout::bind(&Base::d, &o)() == a;
		f(o) = b; f(p) += 1; int r = o.d; Ev e("data"); e("a", a)("b", b)("same", same)("r", V{r, int(f(co)), int(g(co))}); e.emit(); }
}
template<typename H> static bool eqh(H a, H b) { return a == b; }
static void hashes() {
	int n = vf::rnd(0, 6); V v = vf::rnd_seq(200, n, -100); std::size_t seed = std::size_t(vf::rnd(0, 1) ? vf::rnd64() : 0), h = seed, z = 0; for (int x : v) { h = sprout::hash_combine(h, x); z = sprout::hash_combine(z, x); }
	bool same = sprout::hash_range(seed, v.begin(), v.end()) == h && sprout::hash_range(v.begin(), v.end()) == z && sprout::hash_range(v) == z;
	sprout::array<int, 4> a = {{vf::rnd(-9, 9), vf::rnd(-9, 9), vf::rnd(-9, 9), vf::rnd(-9, 9)}}; std::size_t w = sprout::hash_values(a[0], a[1], a[2], a[3]); int c[4] = {a[0], a[1], a[2], a[3]};
	same = same && w == sprout::hash_range(a) && w == sprout::to_hash(a) && w == sprout::hash<sprout::array<int, 4> >()(a) && w == sprout::hash<>()(a) && w == sprout::to_hash(sprout::make_tuple(a[0], a[1], a[2], a[3])) && w == sprout::hash_combine(0, a[0], a[1], a[2], a[3]) && w == sprout::hash_combine(sprout::hash_values(a[0], a[1]), a[2], a[3]) && w == sprout::to_hash(c) && sprout::hash_combine(seed) == seed && sprout::hash_values() == 0;
	Ev e("hash"); e("v", v)("same", same); e.emit();
}
template<typename T> void hnum() { bool same = true; for (int k = 0; k < 300; ++k) { T x = T(vf::rnd64()), y = vf::rnd(0, 1) ? x : T(vf::rnd(0, 3)); T const cx = x; bool eq = x == y; std::size_t h = sprout::to_hash(x), g = sprout::hash<T>()(y); same = same && (!eq || h == g) && sprout::to_hash(cx) == h && sprout::hash<T const>()(x) == h && sprout::hash<>()(cx) == h; } Ev e("hsame"); e("same", same); e.emit(); }
template<typename T> void hfloat() { bool same = sprout::to_hash(T(0)) == sprout::to_hash(-T(0)); for (int k = 0; k < 300; ++k) { T x = T(vf::rnd(-1000, 1000)) / T(vf::rnd(1, 64)), y = x * T(4); y = y / T(4); T const cx = x; same = same && sprout::to_hash(x) == sprout::to_hash(y) && sprout::to_hash(cx) == sprout::hash<T>()(y); } Ev e("hsame"); e("same", same); e.emit(); }
#endif
int main(int ac, char** av) {
	vf::init(ac, av);
#if PART == 1
	for (int h = 0; h < (vf::thorough() ? 4 : 1); ++h) {
		vf::begin_history();
		for (int a = -7; a <= 7; ++a) for (int b = -7; b <= 7; ++b) { integral<int>(a, b); if ((a + b) % 3 == 0) { integral<signed char>(a * 9, b); integral<long long>(a * 11, b); } if (a % b == 0 || b == 0) {} }
		vf::end_history(); vf::begin_history();
		for (int a = 0; a < 16; ++a) for (int b = 0; b < 8; ++b) { integral<unsigned char>((a * 37 + 11) % 256, b); if (a * 8 % (b ? b : 1) == 0) arith<double>(a * 8 - 64, b); }
		vf::end_history(); vf::begin_history(); access();
		for (int k = 0; k < 400; ++k) { int a = vf::rnd(-120, 120), b = vf::rnd(-120, 120); integral<int>(a, b); integral<short>(b, a / 16); }
		vf::end_history();
	}
#elif PART == 2
	vf::begin_history(); one<>();
#define X(B) one<B>();
	X(BV<50>) X(BR) X(BCR) X(BP<1>) X(BP<2>) X(BP<3>) X(BPos) X(N1) X(N2) X(N3) X(BT<0>) X(BT<1>) X(BT<2>) X(BT<3>)
#undef X
	two<BV<50> >(); two<BR>(); two<BP<1> >(); two<BP<2> >(); two<BP<3> >();
	vf::end_history();
#elif PART == 3
	vf::begin_history(); two<BCR>(); two<BPos>(); two<N1>(); two<N3>(); two<BT<0> >(); two<BT<1> >(); two<BT<2> >();
	one<BN<6, BPos, BPos>, BPos, BN<7, BPos> >(); one<BV<1>, BT<1>, BP<1> >(); one<BP<3>, BT<0>, BP<2>, BT<1> >(); one<N1, BT<2>, N2, BPos>();
	vf::end_history();
#elif PART == 4
	vf::begin_history(); twothree<BV<50> >(); twothree<BP<1> >(); twothree<BP<2> >(); twothree<BP<3> >(); twothree<BPos>();
	vf::end_history();
#elif PART == 5
	vf::begin_history(); rshapes<>(); rshapes<BV<50> >(); rshapes<BR>(); rshapes<BP<2> >(); rshapes<BP<3>, BP<1> >(); rshapes<BP<2>, BP<2>, BP<1> >(); rshapes<N1, BP<2> >(); rshapes<BPos, BV<4>, BPos>(); rshapes<BP<1>, BR, N2>();
	rshapes<BT<0> >(); rshapes<BV<9>, BT<1> >(); rshapes<BT<2>, BP<1> >(); rshapes<N3, BPos, BT<0> >();
	vf::end_history();
	vf::begin_history();
	{	// other targets: plain functions, references to functors, binders as functors, std::function, literals
		using sprout::_1; using sprout::_2; int r; std::string const sw = "[{\"k\":\"p\",\"x\":2},{\"k\":\"p\",\"x\":1}]", va = "[{\"k\":\"tail\",\"x\":0}]", t1 = "[{\"k\":\"tail\",\"x\":1}]";
		{ auto f = sprout::bind(&Fun<1>, _2, _1); r = f(5, 6); put("plain", false, sw, V{5, 6}, "[\"r\",\"r\"]", r); auto const& g = f; r = g(7, 8); put("plain", true, sw, V{7, 8}, "[\"r\",\"r\"]", r); }
		{ auto f = sprout::bind(Fun<1>, _2, _1); r = f(5, 6); put("plain", false, sw, V{5, 6}, "[\"r\",\"r\"]", r); }
		{ Target<1> t; auto f = sprout::bind(sprout::ref(t), _2, _1); r = f(5, 6); put("plain", false, sw, V{5, 6}, "[\"r\",\"r\"]", r); }
		{ auto h = sprout::bind(&Fun<1>, _2, _1); auto f = sprout::bind(sprout::ref(h), _2, _1); r = f(5, 6); put("plain", false, "[{\"k\":\"p\",\"x\":1},{\"k\":\"p\",\"x\":2}]", V{5, 6}, "[\"r\",\"r\"]", r); }
		{ std::function<int(int, int)> g = &Fun<1>; auto f = sprout::bind(g, _2, _1); r = f(5, 6); put("plain", false, sw, V{5, 6}, "[\"r\",\"r\"]", r); std::function<int(int, int)> k = f; r = k(3, 4); put("plain", false, sw, V{3, 4}, "[\"r\",\"r\"]", r); }
		{ using namespace sprout::literals; auto f = sprout::bind(Target<1>(), 2_, 1_); r = f(5, 6); put("lit", false, sw, V{5, 6}, "[\"r\",\"r\"]", r); auto g = sprout::bind(Target<1>(), 0_tail); r = g(5, 6); put("lit", false, va, V{5, 6}, "[\"r\",\"r\"]", r); auto h = sprout::bind(Target<1>(), 1_tail); r = h(5, 6, 7); put("lit", false, t1, V{5, 6, 7}, "[\"r\",\"r\",\"r\"]", r); }
	}
	{	// many arguments: every placeholder up to ten in reverse, the named tails
		using namespace sprout::placeholders; int r = sprout::bind(Target<1>(), _10, _9, _8, _7, _6, _5, _4, _3, _2, _1)(1, 2, 3, 4, 5, 6, 7, 8, 9, 10);
		std::string s; for (int k = 10; k >= 1; --k) s += std::string(k < 10 ? "," : "") + "{\"k\":\"p\",\"x\":" + vf::js(k) + "}"; put("lit", false, "[" + s + "]", V{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, "[\"r\",\"r\",\"r\",\"r\",\"r\",\"r\",\"r\",\"r\",\"r\",\"r\"]", r);
		r = sprout::bind(Target<1>(), _va, _3, _4tail, _1)(1, 2, 3, 4, 5, 6); put("lit", false, "[{\"k\":\"tail\",\"x\":0},{\"k\":\"p\",\"x\":3},{\"k\":\"tail\",\"x\":4},{\"k\":\"p\",\"x\":1}]", V{1, 2, 3, 4, 5, 6}, "[\"r\",\"r\",\"r\",\"r\",\"r\",\"r\"]", r);
	}
	vf::end_history();
#elif PART == 6
	vf::begin_history(); for (int a = -4; a <= 4; ++a) for (int b = -4; b <= 4; ++b) { wrap(a, b); members(a, b); } vf::end_history();
	vf::begin_history(); for (int h = 0; h < (vf::thorough() ? 3000 : 400); ++h) hashes(); vf::end_history();
	vf::begin_history(); hnum<int>(); hnum<char>(); hnum<unsigned char>(); hnum<long>(); hnum<unsigned long long>(); hnum<short>(); hfloat<float>(); hfloat<double>(); hfloat<long double>(); vf::end_history();
#endif
	return vf::done();
}
