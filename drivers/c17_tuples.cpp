// C17: tuple operations on every tuple-like (part 1), relations and hashes (part 2), construct/assign/swap histories (part 3).
#include "vf.hpp"
#include <array>
#include <tuple>
#include <utility>
#include <complex>
#include <sprout/tuple/tuple.hpp>
#include <sprout/tuple/functions.hpp>
#include <sprout/tuple/operation.hpp>
#include <sprout/tuple/algorithm.hpp>
#include <sprout/tuple/apply.hpp>
#include <sprout/tuple/fused.hpp>
#include <sprout/tuple/flex.hpp>
#include <sprout/tuple/make_from_tuple.hpp>
#include <sprout/tuple/std/array.hpp>
#include <sprout/tuple/std/utility.hpp>
#include <sprout/tuple/std/complex.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/utility/pack.hpp>
#include <sprout/utility/swap.hpp>
#include <sprout/utility/exchange.hpp>
#include <sprout/array.hpp>
#include <sprout/array/tuple.hpp>
#include <sprout/complex.hpp>
#include <sprout/rational.hpp>
#include <sprout/math/quaternion.hpp>
#include <sprout/functional/hash.hpp>
typedef std::vector<int> V;
// a value that shows when it has been moved from
struct M { int v; M() : v(0) {} M(int a) : v(a) {} M(M const& o) : v(o.v) {} M(M&& o) : v(o.v) { o.v = -5; } M& operator=(M const& o) { v = o.v; return *this; } M& operator=(M&& o) { int t = o.v; o.v = -5; v = t; return *this; } bool operator==(M const& o) const { return v == o.v; } bool operator<(M const& o) const { return v < o.v; } };
std::size_t hash_value(M const& m) { return sprout::to_hash(m.v); }
inline int val(int v) { return v; } inline int val(long v) { return int(v); } inline int val(char v) { return int(v); } inline int val(double v) { return int(v); } inline int val(M const& m) { return m.v; }
template<std::size_t I, std::size_t N, typename T> struct elems { static void go(T& t, V& c, V& m, V& r) { c.push_back(val(sprout::tuples::get<I>(static_cast<T const&>(t)))); m.push_back(val(sprout::tuples::get<I>(t))); T k(t); r.push_back(val(sprout::tuples::get<I>(static_cast<T&&>(k)))); elems<I + 1, N, T>::go(t, c, m, r); } };
template<std::size_t N, typename T> struct elems<N, N, T> { static void go(T&, V&, V&, V&) {} };
// the elements, however they are reached; {-1}: the ways disagree
template<typename T> V look(T t) { V c, m, r; elems<0, sprout::tuples::tuple_size<T>::value, T>::go(t, c, m, r); return c == m && c == r ? c : V{-1}; }
template<std::size_t I, std::size_t N, typename T> struct refelems { static void go(T const& t, V& c) { c.push_back(val(sprout::tuples::get<I>(t))); refelems<I + 1, N, T>::go(t, c); } };
template<std::size_t N, typename T> struct refelems<N, N, T> { static void go(T const&, V&) {} };
template<typename T> V peek(T const& t) { V c; refelems<0, sprout::tuples::tuple_size<T>::value, T>::go(t, c); return c; }
void ev(char const* op, V const& a, V const& b, V const& r, V const& after, int k = 0) { vf::Ev e(op); e("a", a)("b", b)("r", r)("f", after)("k", k); e.emit(); }
struct collect { V operator()() const { return V{}; } template<typename... A> V operator()(A&&... a) const { return V{val(a)...}; } };
struct holds { V v; template<typename... A> explicit holds(A&&... a) : v{val(a)...} {} };
int rv() { return vf::rnd(0, 9); }

#if PART == 1
template<typename T, typename B> void after(T const& t, B const& b) { ev("append_back", look(t), look(b), look(sprout::tuples::append_back(t, b)), peek(t)); }
template<typename T, typename B> void two(T const& t, B const& b) {
	ev("append_back", look(t), look(b), look(sprout::tuples::append_back(t, b)), peek(t)); ev("append_front", look(t), look(b), look(sprout::tuples::append_front(t, b)), peek(t));
}
template<typename T, typename B> void over(T const& t, B const& b) { ev("copy", look(t), look(b), look(sprout::tuples::copy(t, b)), peek(t)); }
template<typename T> void pushes(T const& t) {
	M m(rv()); long l = rv(); int i = rv();
	{ vf::tag() = "1"; ev("push_back", look(t), V{m.v}, look(sprout::tuples::push_back(t, m)), peek(t)); ev("push_front", look(t), V{m.v}, look(sprout::tuples::push_front(t, m)), peek(t)); }
	{ vf::tag() = "3"; ev("push_back", look(t), V{i, m.v, int(l)}, look(sprout::tuples::push_back(t, i, m, l)), peek(t)); ev("push_front", look(t), V{i, m.v, int(l)}, look(sprout::tuples::push_front(t, i, m, l)), peek(t)); }
	{ vf::tag() = "0"; ev("push_back", look(t), V{}, look(sprout::tuples::push_back(t)), peek(t)); ev("push_front", look(t), V{}, look(sprout::tuples::push_front(t)), peek(t)); }
}
template<typename T> void pushes1(T const& t) {	// arrays: elements of the array's own type (there is no array of no elements to start a push_front from)
	int i = rv(), j = rv();
	{ vf::tag() = "1"; ev("push_back", look(t), V{i}, look(sprout::tuples::push_back(t, i)), peek(t)); }
	{ vf::tag() = "2"; ev("push_back", look(t), V{i, j}, look(sprout::tuples::push_back(t, i, j)), peek(t)); }
}
template<typename T> void pops(T const& t) { ev("pop_back", look(t), V{}, look(sprout::tuples::pop_back(t)), peek(t)); ev("pop_front", look(t), V{}, look(sprout::tuples::pop_front(t)), peek(t)); }
template<typename T> void uses(T t) {	// hand the elements to a function or constructor
	V a = look(t); collect f; T k(t);
	ev("same", a, V{}, sprout::apply(f, static_cast<T const&>(t)), peek(t), 1); ev("same", a, V{}, sprout::apply(f, t), peek(t), 1); ev("same", a, V{}, sprout::apply(collect(), static_cast<T&&>(k)), peek(t), 1);
	T k2(t); ev("same", a, V{}, sprout::make_fused(f)(t), peek(t), 1); ev("same", a, V{}, sprout::make_fused(f)(static_cast<T&&>(k2)), peek(t), 1); sprout::fused<collect> fu(f); ev("same", a, V{}, fu(static_cast<T const&>(t)), peek(t), 1);
	T k3(t); ev("same", a, V{}, sprout::make_from_tuple<holds>(static_cast<T const&>(t)).v, peek(t), 1); ev("same", a, V{}, sprout::make_from_tuple<holds>(static_cast<T&&>(k3)).v, peek(t), 1);
}
template<typename T> void deep(T t) { ev("same", look(t), V{}, look(sprout::tuples::deep_copy(t)), peek(t), 1); ev("same", look(t), V{}, look(sprout::tuples::deep_copy(static_cast<T const&>(t))), peek(t), 1); }
template<typename A, typename B> void cats(A const& a, B const& b) {
	V x = look(a), y = look(b);
	{ vf::Ev e("cat"); e("p", std::vector<V>{})("r", look(sprout::tuple_cat())); e.emit(); }
	{ vf::Ev e("cat"); e("p", std::vector<V>{x})("r", look(sprout::tuple_cat(a))); e.emit(); }
	{ vf::Ev e("cat"); e("p", std::vector<V>{x, y})("r", look(sprout::tuple_cat(a, b))); e.emit(); }
	{ vf::Ev e("cat"); e("p", std::vector<V>{y, x, y})("r", look(sprout::tuple_cat(b, a, b))); e.emit(); }
	{ A c(a); vf::Ev e("cat"); e("p", std::vector<V>{x, y, x})("r", look(sprout::tuple_cat(static_cast<A&&>(c), b, a))); e.emit(); }
	{ A c(a); B d(b); vf::Ev e("cat"); e("p", std::vector<V>{y, y, x, x})("r", look(sprout::tuple_cat(static_cast<B&&>(d), b, a, static_cast<A&&>(c)))); e.emit(); }
}
template<typename... T> void flexes(T... v) {
	typedef sprout::tuple<T...> S; S s(v...); V a = look(s); sprout::tuples::flexibly_construct_t const& fl = sprout::tuples::flexibly_construct;
	ev("flex", a, V{}, look(sprout::tuple<>(fl, s)), peek(s), 0); ev("flex", a, V{}, look(sprout::tuple<long>(fl, s)), peek(s), 1); ev("flex", a, V{}, look(sprout::tuple<long, M>(fl, s)), peek(s), 2); ev("flex", a, V{}, look(sprout::tuple<int, long, M>(fl, s)), peek(s), 3); ev("flex", a, V{}, look(sprout::tuple<long, int, int, M, M>(fl, s)), peek(s), 5);
	{ S c(s); ev("flex", a, V{}, look(sprout::tuple<long, M>(fl, static_cast<S&&>(c))), peek(s), 2); } { S c(s); ev("flex", a, V{}, look(sprout::tuple<long, int, int, M, M>(fl, static_cast<S&&>(c))), peek(s), 5); }
	vf::tag() = "list"; ev("flex", a, V{}, look(sprout::tuple<long>(fl, v...)), peek(s), 1); ev("flex", a, V{}, look(sprout::tuple<long, M>(fl, v...)), peek(s), 2); ev("flex", a, V{}, look(sprout::tuple<int, long, M>(fl, v...)), peek(s), 3); ev("flex", a, V{}, look(sprout::tuple<long, int, int, M, M>(fl, v...)), peek(s), 5);
	vf::tag() = "flex()"; { sprout::tuple<long> x = sprout::flex(s); ev("flex", a, V{}, look(x), peek(s), 1); } { sprout::tuple<int, long, M> x = sprout::flex(s); ev("flex", a, V{}, look(x), peek(s), 3); } { sprout::tuple<long, int, int, M, M> x = sprout::flex(s); ev("flex", a, V{}, look(x), peek(s), 5); }
	ev("flex", a, V{}, look(sprout::flex<sprout::tuple<int, long, M> >(s)), peek(s), 3);
	vf::tag() = "rec"; { sprout::tuple<long> x = sprout::recursive_flex(s); ev("flex", a, V{}, look(x), peek(s), 1); } { sprout::tuple<long, int, int, M, M> x = sprout::recursive_flex(s); ev("flex", a, V{}, look(x), peek(s), 5); } ev("flex", a, V{}, look(sprout::recursive_flex<sprout::tuple<int, long, M> >(s)), peek(s), 3);
}
void nested() {
	int a = rv(), b = rv(), c = rv(), d = rv(); typedef sprout::tuple<int, long> I; typedef sprout::tuple<I, int, I> S; S s(I(a, b), c, I(d, a));
	{ sprout::tuple<sprout::tuple<long, int, M>, int, sprout::tuple<int> > x = sprout::recursive_flex(s); ev("flex", V{a, b}, V{}, look(sprout::get<0>(x)), V{a, b}, 3); ev("flex", V{d, a}, V{}, look(sprout::get<2>(x)), V{d, a}, 1); ev("flex", V{c}, V{}, V{sprout::get<1>(x)}, V{c}, 1); }
	{ sprout::tuple<sprout::tuple<int> > x = sprout::recursive_flex(s); ev("flex", V{a, b}, V{}, look(sprout::get<0>(x)), V{a, b}, 1); }
	ev("same", V{a, b, c, d, a}, V{}, V{sprout::nested_get<0, 0>(s), int(sprout::nested_get<0, 1>(s)), sprout::nested_get<1>(s), sprout::nested_get<2, 0>(s), int(sprout::nested_get<2, 1>(s))}, V{a, b, c, d, a}, 1);
	sprout::tuple<char, M, long> u(char(1), M(a), long(b)); ev("same", V{1, a, b}, V{}, V{val(sprout::get<char>(u)), val(sprout::get<M>(u)), val(sprout::get<long>(u))}, peek(u), 1);
	sprout::get<M>(u) = M(c); sprout::get<2>(u) = d; ev("same", V{1, c, d}, V{}, look(u), peek(u), 1);
	sprout::nested_get<0, 1>(s) = 7; ev("same", V{a, 7}, V{}, look(sprout::get<0>(s)), V{a, 7}, 1);
	sprout::pair<int, M> p(a, M(b)); ev("same", V{a, b}, V{}, V{sprout::first(p), sprout::second(p).v}, V{p.first, p.second.v}, 1); sprout::first(p) = c; sprout::second(p) = M(d); ev("same", V{c, d}, V{}, look(p), V{p.first, p.second.v}, 1);
	M m(b); long l = c; ev("same", V{a, b, c}, V{}, V{val(sprout::pack_get<0>(a, m, l)), val(sprout::pack_get<1>(a, m, l)), val(sprout::pack_get<2>(a, m, l))}, V{a, m.v, int(l)}, 1); ev("same", V{a}, V{}, V{sprout::head_get(a, m, l)}, V{a}, 1);
	M old = sprout::exchange(m, M(d)); ev("same", V{b, d}, V{}, V{old.v, m.v}, V{b, d}, 1);
}
void refs() {	// tie, forward_as_tuple, ignore: the tuple is its referents
	int a = rv(), b = rv(), c = rv(), d = rv(), x = 0; M m(b); long l = c; V s{a, b, c};
	auto t = sprout::tie(a, m, l); ev("same", s, V{}, peek(t), V{a, m.v, int(l)}, 1); sprout::get<0>(t) = d; sprout::get<1>(t) = M(a); ev("same", V{d, d, c}, V{}, V{a, m.v, int(l)}, peek(t), 1);
	sprout::tie(x, m, l) = sprout::make_tuple(d, M(c), long(b)); ev("same", V{d, c, b}, V{}, V{x, m.v, int(l)}, V{x, m.v, int(l)}, 1);
	sprout::tuple<int, M, long> w(c, M(d), a); sprout::tie(x, m, l) = w; ev("same", V{c, d, a}, V{}, V{x, m.v, int(l)}, peek(w), 1);
	x = 3; l = 4; sprout::tie(sprout::ignore, m, sprout::ignore) = sprout::make_tuple(d, M(c), long(b)); ev("same", V{3, c, 4}, V{}, V{x, m.v, int(l)}, V{x, m.v, int(l)}, 1);
	sprout::tie(x, m) = sprout::make_pair(d, M(a)); ev("same", V{d, a}, V{}, V{x, m.v}, V{x, m.v}, 1); sprout::pair<int, M> p(a, M(b)); sprout::tie(x, m) = p; ev("same", V{a, b}, V{}, V{x, m.v}, look(p), 1);
	// a tuple of references copied from or assigned from must leave its referents alone
	m = M(b); x = c; { sprout::tuple<int, M> k(0, M(9)); k = sprout::tie(x, m); ev("same", V{c, b}, V{}, look(k), V{x, m.v}, 1); } { sprout::tuple<int, M> k(sprout::tie(x, m)); ev("same", V{c, b}, V{}, look(k), V{x, m.v}, 1); }
	{ sprout::tuple<int&, M&> const r(x, m); sprout::tuple<int, M> k(r); ev("same", V{c, b}, V{}, look(k), V{x, m.v}, 1); sprout::tuple<int, M> j(0, M(9)); j = r; ev("same", V{c, b}, V{}, look(j), V{x, m.v}, 1); int x2 = 0; M m2(0); sprout::tuple<int&, M&> q(x2, m2); q = r; ev("same", V{c, b}, V{}, V{x2, m2.v}, V{x, m.v}, 1); }
	{ auto g = sprout::tuple_cat(sprout::tie(x), sprout::make_tuple(d), sprout::tie(m)); ev("same", V{c, d, b}, V{}, peek(g), V{x, d, m.v}, 1); }
	ev("same", V{c, b}, V{}, sprout::apply(collect(), sprout::tie(x, m)), V{x, m.v}, 1); ev("same", V{c, b, a}, V{}, sprout::apply(collect(), sprout::forward_as_tuple(x, m, int(a))), V{x, m.v, a}, 1);
	{ M n(a); sprout::tuple<M, int> k(sprout::forward_as_tuple(static_cast<M&&>(n), x)); ev("same", V{a, c}, V{}, look(k), V{n.v == -5 ? a : -1, x}, 1); }
	{ sprout::tuple<int&, M&> r1(x, m); int y = d; M n(a); sprout::tuple<int&, M&> r2(y, n); swap(r1, r2); ev("same", V{d, a, c, b}, V{}, V{x, m.v, y, n.v}, V{x, m.v, y, n.v}, 1); }
	x = a; { auto k = sprout::make_tuple(std::ref(x), 5); sprout::get<0>(k) = d; ev("same", V{d, 5}, V{}, peek(k), V{x, 5}, 1); auto kp = sprout::make_pair(sprout::ref(x), 6); kp.first = c; ev("same", V{c, 6}, V{}, V{kp.first, kp.second}, V{x, 6}, 1); }
}
int main(int ac, char** av) {
	vf::init(ac, av);
	for (int it = 0, n = vf::thorough() ? 400 : 40; it < n; ++it) {
		sprout::tuple<> t0; sprout::tuple<int> t1(rv()); sprout::tuple<int, M> t2(rv(), M(rv())); sprout::tuple<M, int, long> t3(M(rv()), rv(), rv()); sprout::tuple<int, int, M, long, char> t5(rv(), rv(), M(rv()), rv(), char(rv()));
		sprout::pair<int, M> p(rv(), M(rv())); std::pair<M, long> q(M(rv()), rv()); sprout::array<int, 3> ar = {{rv(), rv(), rv()}}; sprout::array<int, 1> a1 = {{rv()}}; std::array<int, 3> sa = {{rv(), rv(), rv()}}; std::tuple<int, M, long> st(rv(), M(rv()), rv());
		vf::tag() = "tuple"; pushes(t0); pushes(t1); pushes(t2); pushes(t3); pushes(t5); pops(t1); pops(t2); pops(t3); pops(t5);
		vf::tag() = "array"; pushes1(ar); pushes1(a1); pops(ar); vf::tag() = "std array"; pushes1(sa); pops(sa); vf::tag() = "std tuple"; pushes(st); pops(st);
		vf::tag() = "tuple"; two(t0, t0); two(t0, t3); two(t3, t0); two(t2, t3); two(t3, t2); two(t5, t3); two(t2, p); two(t2, q); two(t3, ar); two(t1, sa); two(t1, st); two(st, t2); vf::tag() = "array"; after(ar, t1); after(ar, ar); after(a1, ar); after(ar, sa); after(sa, ar); after(sa, sa);
		vf::tag() = "tuple"; sprout::tuple<long, M, int> t3b(rv(), M(rv()), rv()); over(t0, t3); over(t3, t0); over(t2, t3b); over(t3, t3); over(t3b, t2); over(t5, t1); over(t5, ar); over(ar, t1); over(ar, sa); over(sa, a1); over(p, t3b); over(p, t1); over(q, sprout::tuple<M, int, int>(M(rv()), rv(), rv())); over(st, t2); over(st, t3b); over(t3b, p); over(t2, st);
		vf::tag() = "tuple"; uses(t0); uses(t1); uses(t2); uses(t3); uses(t5); vf::tag() = "pair"; uses(p); uses(q); vf::tag() = "array"; uses(ar); uses(a1); uses(sa); uses(st); deep(t0); deep(t3); deep(t5); deep(p); deep(q); deep(ar); deep(st);
		vf::tag() = "numbers"; uses(sprout::complex<double>(rv(), rv())); uses(sprout::math::quaternion<double>(rv(), rv(), rv(), rv())); sprout::rational<int> ra(rv(), 1 + rv()); ev("same", V{ra.numerator(), ra.denominator()}, V{}, V{sprout::tuples::get<0>(ra), sprout::tuples::get<1>(ra)}, V{ra.numerator(), ra.denominator()}, 1);
		std::complex<double> sc(rv(), rv()); ev("same", V{int(sc.real()), int(sc.imag())}, V{}, V{int(sprout::tuples::get<0>(sc)), int(sprout::tuples::get<1>(sc))}, V{int(sc.real()), int(sc.imag())}, 1);
		vf::tag() = "cat"; cats(t0, t1); cats(t1, t2); cats(t2, t3); cats(t3, t5); cats(t5, t0); { vf::Ev e("cat"); e("p", std::vector<V>{look(t2), look(p)})("r", look(sprout::tuple_cat(t2, p))); e.emit(); } { vf::Ev e("cat"); e("p", std::vector<V>{look(t3), look(q), look(ar), look(t1)})("r", look(sprout::tuple_cat(t3, q, ar, t1))); e.emit(); }
		vf::tag() = "flex"; flexes(rv()); flexes(rv(), rv()); flexes(rv(), long(rv()), rv()); flexes(rv(), rv(), rv(), rv());
		vf::tag() = "nested"; nested(); vf::tag() = "refs"; refs();
		{ vf::tag() = "flexp"; sprout::tuples::flexibly_construct_t const& fl = sprout::tuples::flexibly_construct; V a = look(p); ev("flex", a, V{}, look(sprout::tuple<long>(fl, p)), look(p), 1); ev("flex", a, V{}, look(sprout::tuple<long, M>(fl, p)), look(p), 2); ev("flex", a, V{}, look(sprout::tuple<long, M, int>(fl, p)), look(p), 3); sprout::pair<int, M> k(p); ev("flex", a, V{}, look(sprout::tuple<long, M, int, M>(fl, static_cast<sprout::pair<int, M>&&>(k))), look(p), 4); ev("flex", a, V{}, look(sprout::tuple<>(fl, p)), look(p), 0); }
		{ vf::tag() = "make"; typedef sprout::tuple<M, int, long> T; int a = rv(), b = rv(), c = rv(); V s{a, b, c}; ev("same", s, V{}, look(sprout::tuples::make<T>(M(a), b, long(c))), s, 1); ev("same", s, V{}, look(sprout::tuples::remake<T>(t3, M(a), b, long(c))), s, 1); ev("same", s, V{}, look(sprout::tuples::make<sprout::array<int, 3> >(a, b, c)), s, 1); ev("same", s, V{}, look(sprout::tuples::remake<sprout::array<int, 3> >(ar, a, b, c)), s, 1); ev("same", s, V{}, look(sprout::tuples::make<std::array<int, 3> >(a, b, c)), s, 1); ev("same", V{a, b}, V{}, look(sprout::tuples::make<sprout::pair<int, M> >(a, M(b))), V{a, b}, 1); ev("same", s, V{}, look(sprout::make_tuple(M(a), b, c)), s, 1); ev("same", V{a, b}, V{}, look(sprout::make_pair(a, M(b))), V{a, b}, 1); }
	}
	return vf::done();
}
#elif PART == 2
inline int b6(bool a, bool b, bool c, bool d, bool e, bool f) { return a + 2 * b + 4 * c + 8 * d + 16 * e + 32 * f; }
template<typename A, typename B> void rel(A const& a, B const& b, bool h) { vf::Ev e("rel"); e("a", peek(a))("b", peek(b))("r", b6(a == b, a != b, a < b, a > b, a <= b, a >= b))("h", h); e.emit(); }
template<typename A> bool sameh(A const& a, A const& b) { return sprout::to_hash(a) == sprout::to_hash(b) && std::hash<A>()(a) == std::hash<A>()(b); }
template<typename A> void same(A const& a, A const& b) { rel(a, b, sameh(a, b)); }
int main(int ac, char** av) {
	vf::init(ac, av); int k = vf::thorough() ? 3 : 2;	// values 0..k
	vf::tag() = "0"; { sprout::tuple<> a, b; same(a, b); }
	vf::tag() = "1"; for (int x = 0; x <= k; ++x) for (int y = 0; y <= k; ++y) { same(sprout::tuple<int>(x), sprout::tuple<int>(y)); rel(sprout::tuple<int>(x), sprout::tuple<long>(y), true); same(sprout::tuple<M>(M(x)), sprout::tuple<M>(M(y))); }
	std::vector<V> s2, s3; vf::all_seqs(k + 1, 2, [&](V const& v) { s2.push_back(v); }, 2); vf::all_seqs(3, 3, [&](V const& v) { s3.push_back(v); }, 3);
	vf::tag() = "2"; for (auto& x : s2) for (auto& y : s2) {
		typedef sprout::tuple<int, M> T; typedef sprout::pair<int, M> P; typedef sprout::pair<M, long> Q; same(T(x[0], M(x[1])), T(y[0], M(y[1]))); same(P(x[0], M(x[1])), P(y[0], M(y[1]))); same(Q(M(x[0]), x[1]), Q(M(y[0]), y[1])); rel(sprout::tuple<int, long>(x[0], x[1]), sprout::tuple<long, char>(y[0], char(y[1])), true);
	}
	vf::tag() = "3"; for (auto& x : s3) for (auto& y : s3) {
		typedef sprout::tuple<M, int, long> T; same(T(M(x[0]), x[1], x[2]), T(M(y[0]), y[1], y[2])); rel(sprout::tuple<int, int, int>(x[0], x[1], x[2]), sprout::tuple<long, int, char>(y[0], y[1], char(y[2])), true);
		typedef sprout::array<int, 3> A; same(A{{x[0], x[1], x[2]}}, A{{y[0], y[1], y[2]}});
	}
	vf::tag() = "n"; for (int it = 0, n = vf::thorough() ? 4000 : 600; it < n; ++it) {
		typedef sprout::tuple<int, M, char, long, int> T; int x[5], y[5]; int d = vf::rnd(0, 5); for (int i = 0; i < 5; ++i) { x[i] = vf::rnd(0, 2); y[i] = i < d ? x[i] : vf::rnd(0, 2); }
		same(T(x[0], M(x[1]), char(x[2]), x[3], x[4]), T(y[0], M(y[1]), char(y[2]), y[3], y[4]));
		typedef sprout::tuple<sprout::pair<int, M>, sprout::tuple<int, int> > N; N a(sprout::pair<int, M>(x[0], M(x[1])), sprout::tuple<int, int>(x[2], x[3])), b(sprout::pair<int, M>(y[0], M(y[1])), sprout::tuple<int, int>(y[2], y[3]));
		vf::Ev e("rel"); e("a", V{x[0], x[1], x[2], x[3]})("b", V{y[0], y[1], y[2], y[3]})("r", b6(a == b, a != b, a < b, a > b, a <= b, a >= b))("h", sameh(a, b)); e.emit();
	}
	return vf::done();
}
#else
// histories over two tuples, a tuple of other types and two pairs
typedef sprout::tuple<int, M> T; typedef sprout::tuple<long, int> U; typedef sprout::pair<int, M> P; typedef sprout::pair<long, int> Q;
void history(int len) {
	T x[2]; U u; P p[2]; Q q; vf::begin_history();
	auto show = [&](char const* op, int i, int v = 0, int w = 0) { vf::Ev e(op); e("i", i + 1)("v", v)("w", w)("x", look(x[0]))("y", look(x[1]))("u", look(u))("p", look(p[0]))("q", look(p[1]))("s", look(q)); e.emit(); };
	show("init", 0);
	for (int s = 0; s < len; ++s) {
		int i = vf::rnd(0, 1), v = rv(), w = rv(); M m(w); int const cv = v; M const cm(w); std::tuple<int, M> st;
		switch (vf::rnd(0, 46)) {
		case 0: x[i] = T(cv, cm); show("setx", i, v, w); break;
		case 1: x[i] = T(v, w); show("setx", i, v, w); break;
		case 2: { T n(long(v), w); x[i] = n; show("setx", i, v, w); } break;
		case 3: { T n(x[1 - i]); x[i] = n; show("copyx", i); } break;
		case 4: x[i] = x[1 - i]; show("copyx", i); break;
		case 5: { T n(x[1 - i]); T n2(static_cast<T&&>(n)); x[i] = static_cast<T&&>(n2); show("copyx", i); } break;
		case 6: x[i] = u; show("xfromu", i); break;
		case 7: { T n(u); x[i] = n; show("xfromu", i); } break;
		case 8: { U c(u); T n(static_cast<U&&>(c)); x[i] = n; show("xfromu", i); } break;
		case 9: { U c(u); x[i] = static_cast<U&&>(c); show("xfromu", i); } break;
		case 10: x[i] = p[i]; show("xfromp", i); break;
		case 11: { T n(p[i]); x[i] = n; show("xfromp", i); } break;
		case 12: { P c(p[i]); T n(static_cast<P&&>(c)); x[i] = n; show("xfromp", i); } break;
		case 13: { P c(p[i]); x[i] = static_cast<P&&>(c); show("xfromp", i); } break;
		case 14: x[i] = q; show("xfromq", i); break;
		case 15: { T n(q); x[i] = n; show("xfromq", i); } break;
		case 16: x[0].swap(x[1]); show("swapx", i); break;
		case 17: swap(x[0], x[1]); show("swapx", i); break;
		case 18: sprout::swap(x[0], x[1]); show("swapx", i); break;
		case 19: sprout::get<0>(x[i]) = v; show("x0", i, v); break;
		case 20: sprout::get<1>(x[i]) = M(w); show("x1", i, v, w); break;
		case 21: sprout::tuple_get<1>(x[i]) = M(w); show("x1", i, v, w); break;
		case 22: u = U(v, w); show("setu", i, v, w); break;
		case 23: u = q; show("ufromq", i); break;
		case 24: p[i] = P(cv, cm); show("setp", i, v, w); break;
		case 25: p[i] = P(v, w); show("setp", i, v, w); break;
		case 26: { P n(long(v), static_cast<M&&>(m)); p[i] = n; show("setp", i, v, w); } break;
		case 27: p[i] = sprout::make_pair(v, m); show("setp", i, v, w); break;
		case 28: { P n(std::piecewise_construct, sprout::make_tuple(v), sprout::make_tuple(w)); p[i] = n; show("setp", i, v, w); } break;
		case 29: { P n(std::piecewise_construct, sprout::tuple<>(), sprout::make_tuple(w)); p[i] = n; show("setp", i, 0, w); } break;
		case 30: p[i] = p[1 - i]; show("copyp", i); break;
		case 31: { P n(p[1 - i]); P n2(static_cast<P&&>(n)); p[i] = static_cast<P&&>(n2); show("copyp", i); } break;
		case 32: p[i] = q; show("pfromq", i); break;
		case 33: { P n(q); p[i] = n; show("pfromq", i); } break;
		case 34: { Q c(q); P n(static_cast<Q&&>(c)); p[i] = n; show("pfromq", i); } break;
		case 35: { Q c(q); p[i] = static_cast<Q&&>(c); show("pfromq", i); } break;
		case 36: p[i] = x[i]; show("pfromx", i); break;
		case 37: { P n(x[i]); p[i] = n; show("pfromx", i); } break;
		case 38: { T c(x[i]); p[i] = static_cast<T&&>(c); show("pfromx", i); } break;
		case 39: { T c(x[i]); P n(static_cast<T&&>(c)); p[i] = n; show("pfromx", i); } break;
		case 40: p[i] = u; show("pfromu", i); break;
		case 41: if (s % 2) p[0].swap(p[1]); else swap(p[0], p[1]); show("swapp", i); break;
		case 42: q = Q(v, w); show("setq", i, v, w); break;
		case 43: { std::tuple<int, M> t(x[i]); x[i] = T(std::get<0>(t), std::get<1>(t)); show("same", i); } break;
		case 44: { std::pair<int, M> t(p[i]); p[i] = P(t.first, t.second); show("same", i); } break;
		case 45: x[i] = T(); p[i] = P(); show("zero", i); break;
		case 46: { T& self = x[i]; x[i] = self; P& ps = p[i]; p[i] = ps; show("same", i); } break;
		}
	}
	vf::end_history();
}
int main(int ac, char** av) { vf::init(ac, av); for (int h = 0, n = vf::thorough() ? 1500 : 150; h < n; ++h) history(40); return vf::done(); }
#endif
