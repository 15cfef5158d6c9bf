// C34: compile-time sequences and type lists.
#include "vf.hpp"
#include <array>
#include <tuple>
#include <sprout/index_tuple.hpp>
#include <sprout/type.hpp>
#include <sprout/type/seq/algorithm.hpp>
#include <sprout/type/string.hpp>
#include <sprout/type/uniform_types.hpp>
#include <sprout/tpp/algorithm.hpp>
#include <sprout/tuple.hpp>
#include <sprout/array.hpp>
#include <sprout/string.hpp>
#ifndef PART
#define PART 1
#endif
using vf::Ev;
typedef std::vector<long long> V;
namespace st = sprout::types;
template<int N> using ic = sprout::integral_constant<int, N>;
template<int N> using lc = sprout::integral_constant<long, N>;
template<int N> struct tg { static constexpr int value = N; typedef tg value_type; };
template<typename T> struct ty { static constexpr int v = 2; };
template<> struct ty<int> { static constexpr int v = 0; };
template<> struct ty<long> { static constexpr int v = 1; };
template<> struct ty<char> { static constexpr int v = 3; };
template<> struct ty<unsigned long> { static constexpr int v = 4; };
template<> struct ty<unsigned char> { static constexpr int v = 5; };
template<> struct ty<signed char> { static constexpr int v = 6; };
template<> struct ty<bool> { static constexpr int v = 7; };
template<typename E> long long code() { return (long long)E::value + 100 * ty<typename E::value_type>::v; }
// reading a list by its template arguments alone
template<typename S> struct rd;
template<template<typename...> class C, typename... Ts> struct rd<C<Ts...> > { static V codes() { return V{code<Ts>()...}; } static V vals() { return V{(long long)Ts::value...}; } };
template<template<typename T, T...> class C, typename T, T... Vs> struct rd<C<T, Vs...> > { static V codes() { return V{((long long)Vs + 100 * ty<T>::v)...}; } static V vals() { return V{(long long)Vs...}; } };
template<template<typename, std::size_t> class C, typename T, std::size_t N> struct rd<C<T, N> > { static V codes() { return V(N, code<T>()); } static V vals() { return V(N, (long long)T::value); } };
template<typename S> V codes() { return rd<S>::codes(); }
template<typename S> V vals() { return rd<S>::vals(); }
// containers of types
template<typename S> struct kd { static constexpr int v = 0; };
template<typename... E> struct kd<st::type_tuple<E...> > { static constexpr int v = 1; };
template<typename... E> struct kd<std::tuple<E...> > { static constexpr int v = 2; };
template<typename... E> struct kd<sprout::tuple<E...> > { static constexpr int v = 3; };
template<int... E> struct kd<st::integral_array<int, E...> > { static constexpr int v = 4; };
template<int... E> struct kd<sprout::integer_sequence<int, E...> > { static constexpr int v = 5; };
template<sprout::index_t... E> struct kd<sprout::integer_sequence<sprout::index_t, E...> > { static constexpr int v = 6; };
template<sprout::uindex_t... E> struct kd<sprout::integer_sequence<sprout::uindex_t, E...> > { static constexpr int v = 7; };
template<char... E> struct kd<st::basic_string<char, E...> > { static constexpr int v = 8; };
template<typename E, std::size_t N> struct kd<sprout::array<E, N> > { static constexpr int v = 9; };
template<typename E, std::size_t N> struct kd<std::array<E, N> > { static constexpr int v = 10; };
template<typename E, std::size_t N> struct kd<st::uniform_types<E, N> > { static constexpr int v = 11; };
template<typename R> void res(Ev& e) { e("r", codes<R>())("rk", +kd<R>::v); e.emit(); }
template<typename A> Ev op(char const* f) { Ev e("op"); e("f", f)("k", +kd<A>::v)("a", codes<A>()); return e; }
template<typename... Ts> using tt = st::type_tuple<Ts...>;
// operators
struct even_ { template<typename T> struct apply : public sprout::bool_constant<T::value % 2 == 0> {}; };
struct sub2_ { template<typename T, typename U> struct apply : public ic<2 * T::value - U::value> {}; };
struct rsub_ { template<typename T, typename U> struct apply : public ic<U::value - 2 * T::value> {}; };
struct inc_ { template<typename T> struct apply : public ic<T::value + 1> {}; };
// own index lists
template<int... I> struct ix { };
template<int N, int... I> struct mk : public mk<N - 1, N - 1, I...> { };
template<int... I> struct mk<0, I...> { typedef ix<I...> type; };
constexpr int el(int i, int s, int m) { return ((i * i * 7 + s * 13 + i * (s % 5) + (i * s) / 3) % m + m) % m; }
template<int I, int S> struct pick : public std::conditional<el(I, S, 4) == 0, ic<0>, typename std::conditional<el(I, S, 4) == 1, ic<1>, typename std::conditional<el(I, S, 4) == 2, lc<1>, tg<2> >::type>::type> { };
template<int S, typename X> struct mixed; template<int S, int... I> struct mixed<S, ix<I...> > { typedef tt<typename pick<I, S>::type...> type; };
template<int S, typename X> struct rnds; template<int S, int... I> struct rnds<S, ix<I...> > { template<int M> using of = tt<ic<el(I, S, M)>...>; };
template<typename Vs, int D, typename... Es> struct enumr { // every list of at most D elements over the choices Vs
	template<typename... C> static void more(tt<C...>) { int x[] = {0, (enumr<Vs, D - 1, Es..., C>::go(), 0)...}; (void)x; }
	static void go() { Vs::template at<Es...>(); more(typename Vs::choices()); }
};
template<typename Vs, typename... Es> struct enumr<Vs, 0, Es...> { static void go() { Vs::template at<Es...>(); } };
template<typename Seq> V inst(Seq const&) { return codes<Seq>(); }

#if PART == 1
// ---- builders
template<typename T, T F, T L, typename std::make_signed<T>::type S> void range() {
	typedef typename sprout::integer_range<T, F, L, S>::type R;
	Ev e("range"); e("f", "step")("a", (long long)F)("b", (long long)L)("s", (long long)S)("r", vals<R>())("n", (long long)std::tuple_size<R>::value)("ok", kd<R>::v == kd<sprout::integer_sequence<T> >::v && R::static_size == vals<R>().size() && R::size() == R::static_size); e.emit();
}
template<typename T, T F, T L> void range1() {
	typedef typename sprout::integer_range<T, F, L>::type R;
	Ev e("range"); e("f", "unit")("a", (long long)F)("b", (long long)L)("s", F <= L ? 1 : -1)("r", vals<R>())("n", (long long)std::tuple_size<R>::value)("ok", std::is_same<decltype(sprout::make_indexes<sprout::detail::integer_range<T, F, L, F <= L ? 1 : -1> >()), R>::value); e.emit();
}
template<long F, long L, long S, bool OK = (F < L && S > 0) || (F > L && S < 0)> struct ifr { static void go() {
	range<int, F, L, S>(); range<signed char, F, L, S>();
	typedef typename sprout::index_range<F, L, S>::type R; Ev e("range"); e("f", "index")("a", F)("b", L)("s", S)("r", vals<R>())("n", (long long)std::tuple_size<R>::value)("ok", kd<R>::v == 6); e.emit();
	up(std::integral_constant<bool, (F >= 0 && L >= 0)>());
}
	static void up(std::true_type) { range<unsigned char, F < 0 ? 0 : F, L < 0 ? 0 : L, S>(); range<unsigned, F < 0 ? 0 : F, L < 0 ? 0 : L, S>();
		typedef typename sprout::uindex_range<(F < 0 ? 0 : F), (L < 0 ? 0 : L), S>::type R; Ev e("range"); e("f", "uindex")("a", F)("b", L)("s", S)("r", vals<R>())("n", (long long)std::tuple_size<R>::value)("ok", kd<R>::v == 7); e.emit(); }
	static void up(std::false_type) {}
};
template<long F, long L, long S> struct ifr<F, L, S, false> { static void go() {} };
template<long F, long L> void steps(std::true_type) { }
template<long F, long L> void steps() {
	ifr<F, L, 1>::go(); ifr<F, L, 2>::go(); ifr<F, L, 3>::go(); ifr<F, L, 5>::go(); ifr<F, L, -1>::go(); ifr<F, L, -2>::go(); ifr<F, L, -3>::go(); ifr<F, L, -7>::go();
	range1<int, F, L>(); range1<long long, F, L>();
	typedef typename sprout::index_range<F, L>::type R; Ev e("range"); e("f", "index1")("a", F)("b", L)("s", F <= L ? 1 : -1)("r", vals<R>())("n", (long long)std::tuple_size<R>::value)("ok", kd<R>::v == 6); e.emit();
}
template<long F> void lasts() { steps<F, -5>(); steps<F, -4>(); steps<F, -3>(); steps<F, -2>(); steps<F, -1>(); steps<F, 0>(); steps<F, 1>(); steps<F, 2>(); steps<F, 3>(); steps<F, 4>(); steps<F, 6>(); steps<F, 9>(); }
template<sprout::uindex_t F, sprout::uindex_t L> void uone() { typedef typename sprout::uindex_range<F, L>::type R; Ev e("range"); e("f", "uindex1")("a", (long long)F)("b", (long long)L)("s", F <= L ? 1 : -1)("r", vals<R>())("n", (long long)std::tuple_size<R>::value)("ok", kd<R>::v == 7); e.emit(); range1<unsigned, F, L>(); range1<unsigned char, F, L>(); range1<unsigned short, F, L>(); range1<char, F, L>(); range1<short, F, L>(); }
template<sprout::uindex_t F> void ulasts() { uone<F, 0>(); uone<F, 1>(); uone<F, 2>(); uone<F, 3>(); uone<F, 5>(); uone<F, 8>(); uone<F, 11>(); }
template<int N> void counts() {
	typedef typename sprout::make_integer_sequence<int, N>::type A; typedef typename sprout::make_index_tuple<N>::type B; typedef typename sprout::make_uindex_tuple<N>::type C; typedef typename sprout::make_index_sequence<N>::type D;
	typedef typename sprout::make_integer_sequence<unsigned char, N>::type E; typedef typename sprout::tuple_indexes<std::array<int, N> >::type F; typedef typename sprout::tuple_indexes<sprout::array<int, N> >::type G;
	Ev e("iota"); e("f", "make")("n", N)("r", std::vector<V>{vals<A>(), vals<B>(), vals<C>(), vals<D>(), vals<E>(), vals<F>(), vals<G>(), vals<decltype(sprout::make_index_tuple<N>::make())>(), vals<decltype(sprout::make_indexes<sprout::make_uindex_tuple<N> >())>()})
		("ok", kd<A>::v == 5 && kd<B>::v == 6 && kd<C>::v == 7 && kd<D>::v == 7 && kd<F>::v == 6 && std::is_same<D, sprout::index_sequence<> >::value == (N == 0)); e.emit();
}
template<int X, int N> void copies() {
	typedef typename sprout::integer_n<int, X, N>::type A; typedef typename sprout::index_n<X, N>::type B; typedef typename sprout::uindex_n<(X < 0 ? 0 : X), N>::type C; typedef typename sprout::integer_n<signed char, X, N>::type D;
	Ev e("copies"); e("f", "n")("x", X)("n", N)("r", std::vector<V>{vals<A>(), vals<B>(), vals<D>()})("u", vals<C>())("ok", kd<A>::v == 5 && kd<B>::v == 6 && kd<C>::v == 7); e.emit();
}
template<typename... Ts> void packs() {
	Ev e("iota"); e("f", "pack")("n", (int)sizeof...(Ts))("r", std::vector<V>{vals<typename sprout::integer_pack<int, Ts...>::type>(), vals<typename sprout::index_pack<Ts...>::type>(), vals<typename sprout::uindex_pack<Ts...>::type>(), vals<typename sprout::index_sequence_for<Ts...>::type>(), vals<typename sprout::tuple_indexes<std::tuple<Ts...> >::type>(), vals<typename sprout::tuple_indexes<sprout::tuple<Ts...> >::type>(), vals<typename sprout::tuple_indexes<tt<Ts...> >::type>(), vals<typename sprout::integer_pack<unsigned char, Ts...>::type>()})
		("ok", kd<typename sprout::index_sequence_for<Ts...>::type>::v == 7 && kd<typename sprout::index_pack<Ts...>::type>::v == 6); e.emit();
}
#define LITS(N) { auto a = N##_indexes; auto b = N##_uindexes; Ev e("iota"); e("f", "literal")("n", (int)N)("r", std::vector<V>{vals<decltype(a)>(), vals<decltype(b)>()})("ok", kd<decltype(a)>::v == 6 && kd<decltype(b)>::v == 7); e.emit(); }
template<int S> struct elems {
	template<int... I> static void go(ix<I...>) {
		typedef sprout::integer_sequence<int, el(I, S, 90)...> A; typedef sprout::index_tuple<el(I, S, 90)...> B; typedef sprout::uindex_tuple<el(I, S, 90)...> C;
		V g = {sprout::tuple_get<I>(A())..., sprout::tuple_get<I>(B())..., sprout::tuple_get<I>(C())...}, h = {std::tuple_element<I, A>::type::value..., std::tuple_element<I, B>::type::value..., (long long)std::tuple_element<I, C>::type::value...};
		Ev e("elems"); e("f", "seq")("a", V{el(I, S, 90)...})("g", g)("h", h)("sz", V{(long long)std::tuple_size<A>::value, (long long)std::tuple_size<B>::value, (long long)std::tuple_size<C>::value, (long long)A::size(), (long long)B::static_size, (long long)C::size()})
			("t", std::vector<V>{vals<typename A::template transfer<sprout::integer_sequence<int, 4> >::type>(), vals<typename B::template transfer<sprout::index_tuple<> >::type>(), vals<typename C::template transfer<sprout::uindex_tuple<1, 2> >::type>(), vals<typename A::template rebind<el(I, S, 90)...>::type>()})
			("ok", std::is_same<decltype(A::make()), A>::value && std::is_same<decltype(C::make()), C>::value && std::is_same<typename A::value_type, int>::value && std::is_same<typename std::tuple_element<0, A>::type::value_type, int>::value); e.emit();
	}
};
int main(int ac, char** av) {
	vf::init(ac, av);
	lasts<-4>(); lasts<-3>(); lasts<-2>(); lasts<-1>(); lasts<0>(); lasts<1>(); lasts<2>(); lasts<5>(); lasts<8>();
	ulasts<0>(); ulasts<1>(); ulasts<2>(); ulasts<4>(); ulasts<7>(); ulasts<12>();
	range<signed char, -128, 127, 50>(); range<signed char, -128, 127, 1>(); range<signed char, 127, -128, -100>(); range<signed char, 127, -128, -1>(); range<signed char, -100, 100, 127>(); range<signed char, 100, -100, -128>();
	range<unsigned char, 0, 255, 1>(); range<unsigned char, 255, 0, -1>(); range<unsigned char, 0, 200, 100>(); range<unsigned char, 200, 0, -90>(); range<unsigned char, 255, 10, -128>(); range<unsigned char, 3, 250, 127>();
	range<short, -30000, 30000, 30000>(); range<short, 32767, -32768, -20000>(); range<unsigned short, 0, 65535, 20000>(); range<unsigned short, 65535, 0, -32768>();
	range<int, -1500000000, 1500000000, 600000000>(); range<int, 1500000000, -1500000000, -600000000>(); range<int, 2147483000, 2147483640, 6>(); range<int, -2147483646, -2147483000, 300>(); range<int, -2147483640, 2147480000, 1073741800>();
	range<unsigned, 0, 2147483640, 715827880>(); range<unsigned, 2147483646, 1, -1900000000>(); range<char, -100, 120, 73>(); range<char, 120, -100, -1>();
	range1<signed char, -128, 127>(); range1<signed char, 127, -128>(); range1<unsigned char, 0, 255>(); range1<unsigned char, 255, 0>(); range1<int, 2147483600, 2147483640>(); range1<int, 0, 300>(); range1<int, 300, 0>(); range1<unsigned, 300, 0>();
	{ constexpr long long M = 9223372036854775807LL; typedef typename sprout::integer_range<long long, -M, M, M>::type R; Ev e("huge"); e("f", "range")("r", vals<R>().size() == 2 && vals<R>()[0] == -M && vals<R>()[1] == 0); e.emit();
		typedef sprout::integer_range<long long, M, -M, -(M / 2)>::type Q; Ev f("huge"); f("f", "range")("r", vals<Q>() == V{M, M - M / 2, M - 2 * (M / 2), M - 3 * (M / 2), M - 4 * (M / 2)}); f.emit();
		typedef sprout::integer_range<unsigned long, 0, ~0ul, M>::type T; Ev g("huge"); g("f", "range")("r", T::static_size == 3 && vals<T>()[2] == (long long)(2ul * (unsigned long)M)); g.emit(); }
	counts<0>(); counts<1>(); counts<2>(); counts<3>(); counts<4>(); counts<5>(); counts<6>(); counts<7>(); counts<8>(); counts<9>(); counts<15>(); counts<16>(); counts<17>(); counts<31>(); counts<64>(); counts<100>(); counts<127>(); counts<128>(); counts<200>(); counts<255>();
	copies<0, 0>(); copies<5, 0>(); copies<5, 1>(); copies<-3, 2>(); copies<7, 3>(); copies<0, 4>(); copies<-1, 5>(); copies<9, 6>(); copies<2, 7>(); copies<127, 11>(); copies<-128, 64>(); copies<1, 100>(); copies<3, 255>();
	packs<>(); packs<int>(); packs<int, void*>(); packs<int, int, int>(); packs<char, int, long, void*>(); packs<int, int, int, int, int, int, int>(); packs<int, char, int, int, long, int, int, int, int, bool>();
	{ using namespace sprout::literals; LITS(0) LITS(1) LITS(2) LITS(3) LITS(7) LITS(10) LITS(12) LITS(25) LITS(100) LITS(0x10) LITS(017) LITS(0b101) LITS(0X1f) }
	elems<1>::go(mk<1>::type()); elems<2>::go(mk<2>::type()); elems<3>::go(mk<3>::type()); elems<4>::go(mk<5>::type()); elems<5>::go(mk<8>::type()); elems<6>::go(mk<13>::type());
	return vf::done();
}
#elif PART == 2
// ---- operations on containers of types
template<typename A, bool NE, bool AR> struct un { template<int... I> static void go(ix<I...>) {
	{ Ev e = op<A>("info"); e("sz", V{(long long)st::size<A>::value, (long long)st::tuple_size<A>::value})("emp", st::empty<A>::value)("at", V{code<typename st::at<A, I>::type>()...})("te", V{code<typename st::tuple_element<I, A>::type>()...}); e.emit(); }
	{ Ev e = op<A>("ends"); e("r", V{code<typename st::front<A>::type>(), code<typename st::back<A>::type>()}); e.emit(); }
	{ Ev e = op<A>("map"); res<typename st::map<A, inc_>::type>(e); }
	{ Ev e = op<A>("map"); res<typename st::transform<A, inc_>::type>(e); }
	{ Ev e = op<A>("pop_front"); res<typename st::pop_front<A>::type>(e); }
	{ Ev e = op<A>("pop_back"); res<typename st::pop_back<A>::type>(e); }
} };
template<typename A, bool AR> struct un<A, true, AR> { template<int... I> static void go(ix<I...>) { // empty
	{ Ev e = op<A>("info"); e("sz", V{(long long)st::size<A>::value, (long long)st::tuple_size<A>::value})("emp", st::empty<A>::value)("at", V())("te", V()); e.emit(); }
	{ Ev e = op<A>("map"); res<typename st::map<A, inc_>::type>(e); }
} };
template<typename A, typename... Xs> void push() {
	{ Ev e = op<A>("push_back"); e("x", V{code<Xs>()...}); res<typename st::push_back<A, Xs...>::type>(e); }
	{ Ev e = op<A>("push_front"); e("x", V{code<Xs>()...}); res<typename st::push_front<A, Xs...>::type>(e); }
	{ Ev e = op<A>("rebind"); e("x", V{code<Xs>()...}); res<typename st::rebind<A, Xs...>::type>(e); }
}
template<typename A, typename... Bs> void cat() {
	std::vector<V> b = {codes<Bs>()...};
	{ Ev e = op<A>("append_back"); e("x", b); res<typename st::append_back<A, Bs...>::type>(e); }
	{ Ev e = op<A>("append_front"); e("x", b); res<typename st::append_front<A, Bs...>::type>(e); }
	{ Ev e = op<A>("cat"); e("x", b); res<typename st::tuple_cat<A, Bs...>::type>(e); }
}
template<typename A, typename B> void asg() { Ev e = op<A>("assign"); e("x", codes<B>()); res<typename st::assign<A, B>::type>(e); }
template<typename A> void uno() { un<A, std::tuple_size<A>::value == 0, false>::go(typename mk<int(std::tuple_size<A>::value)>::type()); }
template<typename A> void joins() {
	cat<A>(); cat<A, tt<> >(); cat<A, tt<ic<4>, lc<5> > >(); cat<A, std::tuple<ic<4> >, sprout::tuple<ic<6>, lc<7> > >(); cat<A, st::integral_array<int, 3, 2, 1> >();
	cat<A, sprout::index_tuple<8, 9> >(); cat<A, sprout::integer_sequence<int, 1>, tt<ic<2> >, st::basic_string<char, 3, 4> >(); cat<A, sprout::uindex_tuple<>, std::tuple<> >(); cat<A, sprout::integer_sequence<int, 5, 6>, sprout::uindex_tuple<7> >();
	cat<A, st::uniform_types<ic<3>, 2> >(); cat<A, sprout::array<ic<3>, 3> >(); cat<A, std::array<ic<3>, 1>, tt<ic<0> > >();
	asg<A, tt<> >(); asg<A, tt<ic<4>, lc<5> > >(); asg<A, st::integral_array<int, 3, 2, 1> >(); asg<A, sprout::index_tuple<8, 9> >(); asg<A, sprout::tuple<ic<6> > >(); asg<A, std::array<ic<2>, 2> >();
	push<A>(); push<A, ic<4> >(); push<A, ic<4>, lc<5> >(); push<A, tg<2>, ic<0>, ic<1> >();
	uno<A>();
}
template<template<typename...> class C> void fam() { joins<C<> >(); joins<C<ic<7> > >(); joins<C<ic<1>, lc<1> > >(); joins<C<tg<3>, ic<0>, lc<9> > >(); joins<C<ic<1>, ic<2>, ic<3>, ic<4>, ic<5> > >(); }
template<typename T, template<typename X, X...> class C> void sfam() { joins<C<T> >(); joins<C<T, 7> >(); joins<C<T, 1, 9> >(); joins<C<T, 3, 0, 2> >(); joins<C<T, 1, 2, 3, 4, 5> >(); }
template<template<typename, std::size_t> class C> void afam() {
	uno<C<ic<3>, 2> >(); uno<C<lc<4>, 3> >(); uno<C<ic<1>, 5> >();
	{ typedef C<ic<3>, 2> A; push<A, ic<3> >(); }
}
template<template<typename, std::size_t> class C> void bfam() {
	{ typedef C<ic<3>, 2> A; cat<A, tt<ic<3>, ic<3> > >(); cat<A, C<ic<3>, 4>, tt<> >(); asg<A, tt<ic<4>, ic<4>, ic<4> > >(); push<A, ic<3>, ic<3>, ic<3> >(); }
}
int main(int ac, char** av) {
	vf::init(ac, av);
	fam<st::type_tuple>(); fam<std::tuple>(); fam<sprout::tuple>();
	sfam<int, st::integral_array>(); sfam<int, sprout::integer_sequence>(); sfam<sprout::index_t, sprout::integer_sequence>(); sfam<sprout::uindex_t, sprout::integer_sequence>(); sfam<char, st::basic_string>();
	return vf::done();
}
#elif PART == 3
// ---- searching, counting, quantifiers
template<typename S, typename T> void same() {
	Ev e("same"); e("f", "all")("s", codes<S>())("x", code<T>())("find", V{(long long)st::find_index<S, T>::value, st::find_index<S, T>::is_found::value})("count", (long long)st::count<S, T>::value)("cont", st::contains<S, T>::value)
		("q", V{st::all_of_same<S, T>::value, st::any_of_same<S, T>::value, st::none_of_same<S, T>::value, st::one_of_same<S, T>::value}); e.emit();
}
template<typename S> void pred() {
	Ev e("pred"); e("f", "all")("s", codes<S>())("find", V{(long long)st::find_index_if<S, even_>::value, st::find_index_if<S, even_>::is_found::value})("count", (long long)st::count_if<S, even_>::value)("cont", st::contains_if<S, even_>::value)
		("q", V{st::all_of<S, even_>::value, st::any_of<S, even_>::value, st::none_of<S, even_>::value, st::one_of<S, even_>::value}); e.emit();
}
template<typename S> void each() { same<S, ic<0> >(); same<S, ic<1> >(); same<S, lc<1> >(); same<S, tg<2> >(); pred<S>(); }
struct small { typedef tt<ic<0>, ic<1>, lc<1> > choices; template<typename... E> static void at() { each<tt<E...> >(); } };
struct bits { typedef tt<ic<0>, ic<1> > choices; template<typename... E> static void at() { same<std::tuple<E...>, ic<0> >(); pred<tt<E...> >(); pred<st::integral_array<int, E::value...> >(); same<sprout::integer_sequence<int, E::value...>, ic<1> >(); } };
template<int N, int S> void mix() { each<typename mixed<S, typename mk<N>::type>::type>(); }
#define MIX(S) mix<4, S>(); mix<5, S>(); mix<6, S>(); mix<7, S>(); mix<8, S>(); mix<9, S>(); mix<12, S>(); mix<17, S>();
template<bool... B> void quant() {
	Ev e("tpp"); e("f", "quant")("s", V{B...})("r", V{sprout::tpp::all_of_c<B...>::value, sprout::tpp::any_of_c<B...>::value, sprout::tpp::none_of_c<B...>::value, sprout::tpp::one_of_c<B...>::value,
		sprout::tpp::all_of<sprout::bool_constant<B>...>::value, sprout::tpp::any_of<sprout::bool_constant<B>...>::value, sprout::tpp::none_of<sprout::bool_constant<B>...>::value, sprout::tpp::one_of<std::integral_constant<bool, B>...>::value}); e.emit();
}
struct bools { typedef tt<sprout::false_type, sprout::true_type> choices; template<typename... E> static void at() { quant<E::value...>(); } };
int main(int ac, char** av) {
	vf::init(ac, av);
	enumr<small, 3>::go(); enumr<bits, 4>::go(); enumr<bools, 6>::go();
	MIX(1) MIX(2) MIX(3) MIX(4) MIX(5) MIX(6)
	return vf::done();
}
#elif PART == 4
// ---- folds, sums, transforms, bounds, extremes
template<typename S, int X> void folds() {
	V s = vals<S>();
#define FOLD(NAME, ...) { Ev e("fold"); e("f", NAME)("s", s)("x", X)("r", (long long)st::fold<S, ic<X>, __VA_ARGS__>::type::value)("acc", (long long)st::accumulate<S, ic<X>, __VA_ARGS__>::type::value)("ps", vals<typename st::partial_sum<S, __VA_ARGS__>::type>()); e.emit(); }
	FOLD("plus", st::plus_) FOLD("minus", st::minus_) FOLD("multiplies", st::multiplies_) FOLD("sub2", sub2_) FOLD("rsub", rsub_)
#undef FOLD
	Ev e("fold"); e("f", "plus")("s", s)("x", X)("r", (long long)st::accumulate<S, ic<X> >::type::value)("acc", (long long)st::accumulate<S, ic<X> >::type::value)("ps", vals<typename st::partial_sum<S>::type>()); e.emit();
}
template<typename S> void posts() { Ev e("map1"); e("f", "neg")("s", vals<S>())("r", std::vector<V>{vals<typename st::transform<S, st::negate_>::type>(), vals<typename st::map<S, st::negate_>::type>()})("p", vals<typename st::transform<S, st::posite_>::type>()); e.emit(); }
struct sums { typedef tt<ic<0>, ic<1>, ic<3> > choices; template<typename... E> static void at() { folds<tt<E...>, 2>(); posts<tt<E...> >(); } };
struct isums { typedef tt<ic<1>, ic<4> > choices; template<typename... E> static void at() { folds<st::integral_array<int, E::value...>, -1>(); folds<std::tuple<E...>, 0>(); posts<sprout::integer_sequence<int, E::value...> >(); posts<sprout::tuple<E...> >(); } };
template<typename S, typename T> void zips() {
#define ZIP(NAME, ...) { Ev e("zip"); e("f", NAME)("s", vals<S>())("t", vals<T>())("r", vals<typename st::transform<S, T, __VA_ARGS__>::type>()); e.emit(); }
	ZIP("plus", st::plus_) ZIP("minus", st::minus_) ZIP("multiplies", st::multiplies_) ZIP("sub2", sub2_)
}
template<typename S, int X> void bounds() {
	Ev e("bound"); e("f", "less")("s", vals<S>())("x", X)("less", true)("lo", V{(long long)st::lower_bound_index<S, ic<X> >::value, (long long)st::lower_bound_index<S, ic<X>, st::less_>::value})("up", V{(long long)st::upper_bound_index<S, ic<X> >::value, (long long)st::upper_bound_index<S, ic<X>, st::less_>::value}); e.emit();
}
template<typename S, int X> void rbounds() {
	Ev e("bound"); e("f", "greater")("s", vals<S>())("x", X)("less", false)("lo", V{(long long)st::lower_bound_index<S, ic<X>, st::greater_>::value})("up", V{(long long)st::upper_bound_index<S, ic<X>, st::greater_>::value}); e.emit();
}
constexpr bool asc() { return true; } constexpr bool asc(int) { return true; } template<typename... R> constexpr bool asc(int a, int b, R... r) { return a <= b && asc(b, r...); }
template<bool OK, typename... E> struct bnd { static void go() {
	bounds<tt<E...>, 0>(); bounds<tt<E...>, 1>(); bounds<tt<E...>, 2>(); bounds<st::integral_array<int, E::value...>, 3>(); bounds<std::tuple<E...>, 4>(); bounds<tt<E...>, 5>(); bounds<tt<E...>, -1>();
	rbounds<tt<ic<-E::value>...>, 0>(); rbounds<tt<ic<-E::value>...>, -1>(); rbounds<tt<ic<-E::value>...>, -2>(); rbounds<tt<ic<-E::value>...>, -3>(); rbounds<tt<ic<-E::value>...>, -5>();
} };
template<typename... E> struct bnd<false, E...> { static void go() {} };
struct sorted { typedef tt<ic<1>, ic<2>, ic<4> > choices; template<typename... E> static void at() { bnd<asc(E::value...), E...>::go(); } };
template<int N, int... I> void step(ix<I...>) { typedef tt<ic<(I / N) * 2>...> S; bounds<S, 0>(); bounds<S, 1>(); bounds<S, 2>(); bounds<S, 3>(); bounds<S, 4>(); bounds<S, 6>(); bounds<S, 8>(); bounds<S, 9>(); bounds<S, 14>(); }
template<typename... E> void extr() {
	typedef sprout::tpp::max_element<E...> M; typedef sprout::tpp::min_element<E...> m;
	Ev e("tpp"); e("f", "extremes")("s", V{E::value...})("r", V{M::value, m::value, sprout::tpp::max_element_c<int, E::value...>::value, sprout::tpp::min_element_c<int, E::value...>::value}); e.emit();
}
struct vals_ { typedef tt<ic<-2>, ic<0>, ic<3> > choices; template<typename... E> static void at() { go(tt<E...>()); } static void go(tt<>) {} template<typename... E> static void go(tt<E...>) { extr<E...>(); } };
template<int A, int B> void cmp() {
	typedef ic<A> X; typedef ic<B> Y;
	Ev e("cmp"); e("f", "ops")("a", A)("b", B)("r", V{st::less<X, Y>::value, st::greater<X, Y>::value, st::less_equal<X, Y>::value, st::greater_equal<X, Y>::value, st::equal_to<X, Y>::value, st::not_equal_to<X, Y>::value})
		("q", V{st::apply<st::less_, X, Y>::value, st::apply<st::greater_, X, Y>::value, st::apply<st::less_equal_, X, Y>::value, st::apply<st::greater_equal_, X, Y>::value, st::apply<st::equal_to_, X, Y>::value, st::apply<st::not_equal_to_, X, Y>::value})
		("v", V{st::plus<X, Y>::value, st::minus<X, Y>::value, st::multiplies<X, Y>::value, st::negate<X>::value, st::posite<X>::value})
		("w", V{st::apply<st::plus_, X, Y>::value, st::apply<st::minus_, X, Y>::value, st::apply<st::multiplies_, X, Y>::value, st::apply<st::negate_, X>::value, st::apply<st::posite_, X>::value})
		("y", V{st::plus<X, Y, long>::value, st::minus<X, Y, long>::value, st::apply<st::multiplies_mf<long>, X, Y>::value, st::negate<X, long>::value, st::apply<st::posite_mf<long>, X>::value}); e.emit();
}
template<int A, int B> void dvd() { typedef ic<A> X; typedef ic<B> Y; Ev e("dvd"); e("f", "ops")("a", A)("b", B)("r", V{st::divides<X, Y>::value, st::modulus<X, Y>::value, st::apply<st::divides_, X, Y>::value, st::apply<st::modulus_, X, Y>::value, A / B, A % B}); e.emit(); }
template<int A> void cmps() { cmp<A, -2>(); cmp<A, -1>(); cmp<A, 0>(); cmp<A, 1>(); cmp<A, 3>(); cmp<A, 7>(); dvd<A, 1>(); dvd<A, 2>(); dvd<A, 3>(); dvd<A, 7>(); }
int main(int ac, char** av) {
	vf::init(ac, av);
	enumr<sums, 3>::go(); enumr<isums, 3>::go(); enumr<sorted, 5>::go(); enumr<vals_, 4>::go();
	folds<rnds<1, mk<5>::type>::of<7>, 1>(); folds<rnds<2, mk<6>::type>::of<7>, 1>(); folds<rnds<3, mk<7>::type>::of<7>, -3>(); folds<rnds<4, mk<8>::type>::of<5>, 1>(); folds<rnds<5, mk<9>::type>::of<5>, 4>(); folds<rnds<6, mk<11>::type>::of<4>, 1>(); folds<rnds<7, mk<13>::type>::of<3>, 0>();
	zips<tt<>, tt<> >(); zips<tt<ic<3> >, tt<ic<4> > >(); zips<rnds<1, mk<4>::type>::of<9>, rnds<2, mk<4>::type>::of<9> >(); zips<std::tuple<ic<1>, ic<2>, ic<5> >, tt<ic<4>, ic<4>, ic<0> > >(); zips<st::integral_array<int, 1, 2, 5>, sprout::index_tuple<4, 4, 9> >(); zips<sprout::integer_sequence<int, 1, 2, 5, 9>, tt<ic<4>, ic<4>, ic<0>, ic<2> > >(); zips<rnds<3, mk<9>::type>::of<9>, rnds<4, mk<9>::type>::of<9> >(); zips<sprout::tuple<ic<9>, ic<8> >, st::integral_array<int, 4, 6> >();
	step<1>(mk<7>::type()); step<2>(mk<9>::type()); step<3>(mk<12>::type()); step<2>(mk<16>::type()); step<5>(mk<21>::type()); step<1>(mk<5>::type());
	cmps<-5>(); cmps<-2>(); cmps<-1>(); cmps<0>(); cmps<1>(); cmps<3>(); cmps<8>();
	return vf::done();
}
#else
// ---- iterators over lists, sequence algorithms, strings
template<typename S> struct walk { template<int... I> static void go(ix<I...>) {
	typedef typename st::begin<S>::type B; typedef typename st::end<S>::type E;
	V at = {code<typename st::deref<typename st::advance<B, I>::type>::type>()...};
	V back = {code<typename st::deref<typename st::advance<E, I - (int)sizeof...(I)>::type>::type>()...};
	Ev e("iter"); e("f", "walk")("s", codes<S>())("at", at)("back", back)("d", (long long)st::distance<B, E>::value)
		("one", V{std::is_same<typename st::next<typename st::advance<B, I>::type>::type, typename st::advance<B, I + 1>::type>::value..., std::is_same<typename st::prev<typename st::advance<B, I + 1>::type>::type, typename st::advance<B, I>::type>::value..., std::is_same<typename st::advance<B, sizeof...(I)>::type, E>::value})
		("ds", V{(long long)st::distance<B, typename st::advance<B, I>::type>::value...})("de", V{(long long)st::distance<typename st::advance<B, I>::type, E>::value...}); e.emit();
} };
template<typename S, typename T> void sfind() { typedef typename st::begin<S>::type B; Ev e("sfind"); e("f", "find")("s", codes<S>())("x", code<T>())("i", (long long)st::distance<B, typename st::seq::find<S, T>::type>::value)("p", (long long)st::distance<B, typename st::seq::find_if<S, even_>::type>::value); e.emit(); }
template<typename S> void both() { walk<S>::go(typename mk<int(std::tuple_size<S>::value)>::type()); sfind<S, ic<0> >(); sfind<S, ic<1> >(); sfind<S, lc<1> >(); sfind<S, tg<2> >(); }
struct lists { typedef tt<ic<1>, ic<0>, lc<1> > choices; template<typename... E> static void at() { both<tt<E...> >(); } };
template<typename S> V text(S const& s) { V v; for (auto c : s) v.push_back((long long)c); return v; }
template<typename T, T... C> void str() {
	typedef st::basic_string<T, C...> S; typedef st::integral_array<T, C...> A;
	constexpr auto s = st::to_string_constant<A>(); auto t = st::to_string_constant<S>();
	Ev e("cstr"); e("f", "to")("s", V{(long long)C...})("r", std::vector<V>{text(s), text(t)})("sz", V{(long long)s.size(), (long long)t.size(), (long long)std::strlen("")}); e.emit();
}
#define TXT(S) { SPROUT_TYPES_STRING_TYPEDEF_(S, name); }
template<int> struct holder {
	static void go() {
#ifdef SPROUT_TYPES_STRING_TYPEDEF
		SPROUT_TYPES_STRING_TYPEDEF("", s0); SPROUT_TYPES_STRING_TYPEDEF("a", s1); SPROUT_TYPES_STRING_TYPEDEF("hello, world", s2); SPROUT_TYPES_STRING_TYPEDEF(sprout::to_string("xyz"), s3);
		put<s0>(""); put<s1>("a"); put<s2>("hello, world"); put<s3>("xyz");
#endif
	}
	template<typename S> static void put(std::string const& x) { V v; for (char c : x) v.push_back(c); Ev e("text"); e("f", "typedef")("s", v)("r", vals<S>())("k", +kd<S>::v); e.emit(); }
};
template<typename T, T... C> struct elems { template<int... I> static void go(ix<I...>) {
	typedef st::integral_array<T, C...> A; typedef st::basic_string<T, C...> S;
	Ev e("arr"); e("f", "get")("s", V{(long long)C...})("r", std::vector<V>{V{(long long)sprout::tuple_get<I>(A())...}, V{(long long)sprout::tuple_get<I>(S())...}, V{(long long)std::tuple_element<I, A>::type::value...}, V{(long long)std::tuple_element<I, S>::type::value...}})("sz", V{(long long)std::tuple_size<A>::value, (long long)std::tuple_size<S>::value, (long long)A::static_size, (long long)S::static_size})("ok", std::is_same<typename A::value_type, T>::value && std::is_same<typename A::type, A>::value && std::is_same<typename S::type, S>::value); e.emit();
} };
int main(int ac, char** av) {
	vf::init(ac, av);
	enumr<lists, 3>::go();
	both<mixed<1, mk<5>::type>::type>(); both<mixed<2, mk<8>::type>::type>(); both<mixed<3, mk<13>::type>::type>();
	both<st::uniform_types<ic<1>, 3> >(); both<st::uniform_types<ic<0>, 5> >(); both<st::uniform_types<lc<1>, 1> >(); both<st::integral_array<int, 4, 1, 0> >();
	str<char>(); str<char, 'a'>(); str<char, 'a', 'b', 0>(); str<char, 'a', 0, 'b'>(); str<char, 0>(); str<char, 'h', 'e', 'l', 'l', 'o'>(); str<wchar_t, 'w', 'x', 0, 'y'>(); str<char16_t, 0x3042, 0x41>(); str<char32_t, 0x1F600, 0, 2>();
	holder<0>::go();
	elems<int, 5>::go(mk<1>::type()); elems<int, 5, -3, 9>::go(mk<3>::type()); elems<char, 'x', 'y', 'z', 0, 'w'>::go(mk<5>::type()); elems<unsigned char, 255, 0, 128>::go(mk<3>::type()); elems<bool, true, false>::go(mk<2>::type()); elems<long, 1, 2, 3, 4, 5, 6, 7>::go(mk<7>::type());
	{ Ev e("alias"); e("f", "strings")("r", std::vector<V>{vals<st::string<'a', 'b'> >(), vals<st::wstring<L'a', L'\x3042'> >(), vals<st::u16string<u'a', u'\x3042'> >(), vals<st::u32string<U'a', U'\x1F600'> >()}); e.emit(); }
	return vf::done();
}
#endif
