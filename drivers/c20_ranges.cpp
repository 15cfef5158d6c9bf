// C20: range adaptors and pipelines of them.
#include "itwalk.hpp"
#include <stdexcept>
#include <sprout/array.hpp>
#include <sprout/string.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/range/adaptor.hpp>
#include <sprout/range/adaptor/clamped.hpp>
#include <sprout/range/adaptor/set_union.hpp>
#include <sprout/range/adaptor/set_intersection.hpp>
#include <sprout/range/adaptor/set_difference.hpp>
#include <sprout/range/adaptor/set_symmetric_difference.hpp>
#include <sprout/range/adaptor/merged.hpp>
#include <sprout/range/adaptor/piped.hpp>
#include <sprout/range/adaptor/blanked.hpp>
#include <sprout/range/adaptor/counting.hpp>
#include <sprout/range/adaptor/sized.hpp>
#include <sprout/range/adaptor/steps.hpp>
#include <sprout/range/ptr_range.hpp>
#include <sprout/range/range_container.hpp>
#ifndef PART
#define PART 1
#endif
using vf::V; using vf::Ev; using vf::FWD; using vf::BID; using vf::RA; using vf::observe;
namespace ad = sprout::adaptors;
struct odd { SPROUT_CONSTEXPR bool operator()(int x) const { return x % 2 != 0; } };
struct par { SPROUT_CONSTEXPR bool operator()(int x, int y) const { return (x - y) % 2 == 0; } };
struct lt { SPROUT_CONSTEXPR bool operator()(int x, int y) const { return x < y; } };
struct gt { SPROUT_CONSTEXPR bool operator()(int x, int y) const { return x > y; } };
struct fun { SPROUT_CONSTEXPR int operator()(int x) const { return 2 * x + 1; } };
struct sub { SPROUT_CONSTEXPR int operator()(int x, int y) const { return x - y; } };

template<typename It> struct rng_ { typedef sprout::range::range_container<It> type; };
typedef rng_<int const*>::type PR; typedef rng_<vf::bid>::type BR; typedef rng_<vf::fwd>::type FR;
V gb, gt; PR g2, g3; // the second range
int qa, qb, qc, qd; // parameters, small
template<typename R> struct cat_of { typedef typename std::iterator_traits<typename R::iterator>::iterator_category C; static const int value = std::is_convertible<C, std::random_access_iterator_tag>::value ? RA : std::is_convertible<C, std::bidirectional_iterator_tag>::value ? BID : FWD; };
std::string st(char const* k, int x = 0, int y = 0, int b = 0) { return std::string("[\"") + k + "\"," + std::to_string(x) + "," + std::to_string(y) + "," + (b ? vf::js(b == 2 ? gt : gb) : std::string("[]")) + "]"; }

// one stage each: NEED is the least category of its input
#define STAGE(NAME, NEED, EXPR, DESC) struct NAME { static const int need = NEED; template<typename R> auto operator()(R const& r) const -> decltype(r | EXPR) { return r | EXPR; } static std::string d() { return DESC; } };
STAGE(Rev, BID, ad::reversed, st("reverse"))
STAGE(Tr, FWD, ad::transformed(fun()), st("transform"))
STAGE(Fil, FWD, ad::filtered(odd()), st("filter"))
STAGE(Rem, FWD, ad::removed(qa), st("remove", qa))
STAGE(RemIf, FWD, ad::removed_if(odd()), st("remove_if"))
STAGE(Rep, FWD, ad::replaced(qa, qb), st("replace", qa, qb))
STAGE(RepIf, FWD, ad::replaced_if(odd(), qb), st("replace_if", 0, qb))
STAGE(Uni, FWD, ad::uniqued, st("unique"))
STAGE(UniP, FWD, ad::uniqued(par()), st("unique_par"))
STAGE(Adj, FWD, ad::adjacent_filtered(lt()), st("adjacent"))
STAGE(Clp, FWD, ad::clamped(2, 6), st("clamp", 2, 6))
STAGE(Stp, FWD, ad::steps(1 + qa), st("step", 1 + qa))
STAGE(Stp2, FWD, ad::steps(1 + qa, qb), st("steps", 1 + qa, qb))
STAGE(Tak, FWD, ad::taken(qc), st("taken", qc))
STAGE(Drp, FWD, ad::dropped(qc), st("dropped", qc))
STAGE(TakE, BID, ad::taken_end(-qc), st("taken_end", -qc))
STAGE(DrpE, BID, ad::dropped_end(-qc), st("dropped_end", -qc))
STAGE(Off, BID, ad::offset(qa, -qc), st("offset", qa, -qc))
STAGE(Off1, FWD, ad::offset(qc), st("offset", qc, 0))
STAGE(Win, FWD, ad::window(qa, qa + qc), st("window", qa, qa + qc))
STAGE(Win1, FWD, ad::window(qc), st("dropped", qc))
STAGE(Jnt, FWD, ad::jointed(g2), st("joint", 0, 0, true))
STAGE(Alt, FWD, ad::alternated(g2), st("alternate", 0, 0, true))
STAGE(Tr2, FWD, ad::transformed(g3, sub()), st("transform2", 0, 0, 2))
STAGE(Idx, FWD, ad::indexed, st("same"))
STAGE(Val, FWD, ad::valued(7), st("same"))
STAGE(Siz, FWD, ad::sized<3>(), st("taken", 3))
STAGE(Fll, FWD, ad::filled(qb), st("filled", qb))
STAGE(Blk, FWD, ad::blanked(qc, qb), st("blanked", qb, qc))
STAGE(Cnt, FWD, ad::counting(qb, qb + qc), st("counting", qb, qc))
STAGE(Cpd, FWD, ad::copied, st("same"))
STAGE(Mvd, FWD, ad::moved, st("same"))
STAGE(ATak, FWD, ad::adapted_taken(ad::transformed(fun()), qc), st("on_taken", qc))
STAGE(ADrp, FWD, ad::adapted_dropped(ad::transformed(fun()), qc), st("on_dropped", qc))
STAGE(ATakE, BID, ad::adapted_taken_end(ad::transformed(fun()), -qc), st("on_taken_end", -qc))
STAGE(ADrpE, BID, ad::adapted_dropped_end(ad::transformed(fun()), -qc), st("on_dropped_end", -qc))
STAGE(AWin, FWD, ad::adapted_window(ad::transformed(fun()), qa, qa + qc), st("on_window", qa, qa + qc))
STAGE(AOff, BID, ad::adapted_offset(ad::transformed(fun()), qa, -qc), st("on_offset", qa, -qc))
// sorted input only
STAGE(Mrg, FWD, ad::merged(g2), st("merge", 0, 0, true))
STAGE(Unn, FWD, ad::set_union(g2), st("set_union", 0, 0, true))
STAGE(Int, FWD, ad::set_intersection(g2), st("set_intersection", 0, 0, true))
STAGE(Dif, FWD, ad::set_difference(g2), st("set_difference", 0, 0, true))
STAGE(Sym, FWD, ad::set_symmetric_difference(g2), st("set_symmetric_difference", 0, 0, true))
STAGE(MrgL, FWD, ad::merged(g2, lt()), st("merge", 0, 0, true))
STAGE(UnnL, FWD, ad::set_union(g2, lt()), st("set_union", 0, 0, true))
STAGE(IntL, FWD, ad::set_intersection(g2, lt()), st("set_intersection", 0, 0, true))
STAGE(DifL, FWD, ad::set_difference(g2, lt()), st("set_difference", 0, 0, true))
STAGE(SymL, FWD, ad::set_symmetric_difference(g2, lt()), st("set_symmetric_difference", 0, 0, true))

struct Hd { V a; std::string s; void operator()(Ev& e) const { e("a", a)("st", vf::raw{"[" + s + "]"}); } };
// the view as a container: enumeration, size, indexing, out of range, materialised
template<typename R> void light(Hd const& h, R const& r) {
	Ev e("view"); h(e);
	V f; int g = 0; for (typename R::iterator i = r.begin(); i != r.end() && g < vf::LIMIT; ++i, ++g) f.push_back(int(*i));
	e("f", f)("n", int(sprout::size(r)))("em", bool(sprout::empty(r)));
	V ix, it; for (int i = 0; i < int(f.size()); ++i) { ix.push_back(int(r[i])); it.push_back(int(r.at(i))); }
	int thrown = 0; try { (void)int(r.at(f.size())); } catch (std::out_of_range const&) { thrown = 1; }
	e("ix", ix)("at", it)("th", thrown);
	if (!f.empty()) e("fb", V{int(r.front()), int(r.back()), int(sprout::front(r)), int(sprout::back(r))}); else e("fb", V());
	R s(r); V f2; for (typename R::iterator i = sprout::begin(s); i != sprout::end(s); i = sprout::next(i)) f2.push_back(int(*i));
	e("f2", f2);
	{ sprout::array<int, 4> z = {{90, 91, 92, 93}}; sprout::array<int, 4> c = r | ad::copied(z); e("c4", V(c.begin(), c.end())); }
	{ sprout::array<int, 3> c = r | ad::copied; e("c3", V(c.begin(), c.end())); }
	e.emit();
}
template<bool Ok> struct If {};
template<int Full, typename R> void see(Hd const& h, R const& r, std::integral_constant<int, Full>) { light(h, r); observe<cat_of<R>::value>(h, r.begin(), r.end()); }
template<typename R> void see(Hd const& h, R const& r, std::integral_constant<int, 0>) { light(h, r); }
template<typename S, int Full, typename R> void one_(V const&, R const&, If<false>) {}
template<typename S, int Full, typename R> void one_(V const& a, R const& r, If<true>) { see(Hd{a, S::d()}, S()(r), std::integral_constant<int, Full>()); }
template<typename S, int Full, typename R> void one(V const& a, R const& r) { one_<S, Full>(a, r, If<(cat_of<R>::value >= S::need)>()); }
template<typename S2, typename S1, typename R> void two_(V const&, R const&, If<false>) {}
template<typename S2, typename S1, typename R> void two_(V const& a, R const& r, If<true>) { typedef decltype(S1()(r)) M; M m = S1()(r); see(Hd{a, S1::d() + "," + S2::d()}, S2()(m), std::integral_constant<int, 0>()); }
template<typename S1, typename S2, typename R> void two(V const& a, R const& r) { two_<S2, S1>(a, r, If<(cat_of<decltype(S1()(r))>::value >= S2::need)>()); }

template<typename R> R src(V const& a) { return R(typename R::iterator(a.data()), typename R::iterator(a.data() + a.size())); }
template<typename S> void single(V const& a) {
	one<S, 1>(a, src<PR>(a)); one<S, 1>(a, src<BR>(a)); one<S, 1>(a, src<FR>(a));
	if (a.size() == 4) { sprout::array<int, 4> t; for (int i = 0; i < 4; ++i) t[i] = a[i]; one<S, 1>(a, t); sprout::array<int, 4>& m = t; one<S, 0>(a, m); }
	if (a.size() == 3) { sprout::array<int, 5> t = {{70, 71, 72, 73, 74}}; for (int i = 0; i < 3; ++i) t[i + 1] = a[i]; one<S, 0>(a, sprout::sub_array<sprout::array<int, 5> >(t, 1, 4)); }
}
#if PART == 1
#define SINGLES(X) X(Rev) X(Tr) X(Fil) X(Rem) X(RemIf) X(Rep) X(RepIf) X(Uni) X(UniP) X(Adj) X(Clp)
#elif PART == 2
#define SINGLES(X) X(Stp) X(Stp2) X(Tak) X(Drp) X(TakE) X(DrpE) X(Off) X(Off1) X(Win) X(Win1) X(Siz)
#elif PART == 3
#define SINGLES(X) X(Jnt) X(Alt) X(Tr2) X(Idx) X(Val) X(Fll) X(Blk) X(Cnt) X(Cpd) X(Mvd)
#elif PART == 4
#define SINGLES(X) X(ATak) X(ADrp) X(ATakE) X(ADrpE) X(AWin) X(AOff)
#elif PART == 5
#define SINGLES(X) X(Mrg) X(Unn) X(Int) X(Dif) X(Sym) X(MrgL) X(UnnL) X(IntL) X(DifL) X(SymL)
#endif
#define AFTER(X) X(Rev) X(Tr) X(Fil) X(Rem) X(RepIf) X(Uni) X(Adj) X(Stp) X(Tak) X(Drp) X(TakE) X(DrpE) X(Off) X(Win) X(Jnt) X(Alt) X(Tr2) X(Idx) X(Siz) X(Fll) X(Blk)
template<typename S1> void pairs(V const& a) {
	PR r = src<PR>(a); BR b = src<BR>(a);
#define GO(S2) two<S1, S2>(a, r); 
	AFTER(GO)
#undef GO
	two_<Rev, S1>(a, b, If<(cat_of<decltype(S1()(b))>::value >= BID)>()); two<S1, Fil>(a, b); two<S1, Jnt>(a, b);
}
template<> void pairs<Stp2>(V const&) {} template<> void pairs<Off1>(V const&) {} template<> void pairs<Win1>(V const&) {}
template<> void pairs<MrgL>(V const&) {} template<> void pairs<UnnL>(V const&) {} template<> void pairs<IntL>(V const&) {} template<> void pairs<DifL>(V const&) {} template<> void pairs<SymL>(V const&) {}
#if PART == 6
template<typename R> void deep(V const& a, R const& r) {
#define P3(A, B, C) { Hd h{a, A::d() + "," + B::d() + "," + C::d()}; auto x = A()(r); auto y = B()(x); light(h, C()(y)); }
	P3(Fil, Tr, Rev) P3(Rev, Fil, Tak) P3(Tak, Jnt, Uni) P3(Drp, Rep, Stp) P3(Win, Rev, Drp) P3(Tr, Alt, Fil) P3(Jnt, Jnt, Win) P3(Rem, Jnt, Rev) P3(Uni, Tr, Tak) P3(Stp, Jnt, Stp) P3(Idx, Tr, Siz) P3(Tr2, Rev, Adj)
	// the pipeline as one adaptor, and written in one expression
	light(Hd{a, Fil::d() + "," + Tr::d() + "," + Rev::d()}, r | ad::piped(ad::filtered(odd()), ad::transformed(fun()), ad::reversed));
	light(Hd{a, Drp::d() + "," + Uni::d()}, r | ad::piped(ad::dropped(qc), ad::uniqued));
	light(Hd{a, Tr::d()}, r | ad::piped(ad::transformed(fun())));
	light(Hd{a, Fil::d() + "," + Tr::d() + "," + Rev::d() + "," + Tak::d() + "," + Jnt::d()}, r | ad::filtered(odd()) | ad::transformed(fun()) | ad::reversed | ad::taken(qc) | ad::jointed(g2));
	// views of views through range_container, assignment and swap
	{ auto x = r | ad::taken(qc); auto y = r | ad::dropped(qc); light(Hd{a, Tak::d()}, x); auto z = x; z = y; light(Hd{a, Drp::d()}, z); x.swap(z); light(Hd{a, Drp::d()}, x); light(Hd{a, Tak::d()}, z); swap(x, z); light(Hd{a, Tak::d()}, x); }
	light(Hd{a, st("reverse")}, sprout::range::make_range_container(r | ad::reversed));
}
struct CanMut { template<typename R> static void set(R const& r, int v) { for (auto i = r.begin(); i != r.end(); ++i) *i = v; } };
void mutate(V const& v) { // writing through a view writes the elements it designates
	sprout::array<int, 6> a; auto load = [&] { for (int i = 0; i < 6; ++i) a[i] = v[i]; };
#define MUT(NAME, DESC, EXPR) { load(); CanMut::set(EXPR, 55); Ev e("write"); e("a", v)("k", NAME)("s", vf::raw{"[" + DESC + "]"})("r", V(a.begin(), a.end())); e.emit(); }
	MUT("taken", Tak::d(), a | ad::taken(qc)) MUT("dropped", Drp::d(), a | ad::dropped(qc)) MUT("window", Win::d(), a | ad::window(qa, qa + qc)) MUT("filter", Fil::d(), a | ad::filtered(odd())) MUT("step", Stp::d(), a | ad::steps(1 + qa)) MUT("reverse", st("reverse") + "," + Tak::d(), a | ad::reversed | ad::taken(qc))
}
#endif
int main(int ac, char** av) {
	vf::init(ac, av); int rep = vf::thorough() ? 12 : 2; using vf::rnd;
	for (int n = 0; n <= 6; ++n) for (int q = 0; q < rep; ++q) {
		V a; for (int i = 0; i < n; ++i) a.push_back(rnd(0, q % 2 ? 9 : 4)); gb.clear(); int m = rnd(0, 5); for (int i = 0; i < m; ++i) gb.push_back(rnd(0, 9));
		qa = rnd(0, 2); qb = rnd(0, 4); qc = rnd(0, 5);
#if PART == 5
		std::sort(a.begin(), a.end()); std::sort(gb.begin(), gb.end());
#endif
		g2 = src<PR>(gb); gt.clear(); for (int i = 0; i < 24; ++i) gt.push_back(rnd(0, 9)); g3 = src<PR>(gt);
#if PART <= 5
#define GO(S) single<S>(a);
		SINGLES(GO)
#undef GO
#define GO2(S) pairs<S>(a);
		SINGLES(GO2)
#else
		deep(a, src<PR>(a)); deep(a, src<BR>(a)); if (n == 6) { mutate(a); sprout::array<int, 6> t; for (int i = 0; i < 6; ++i) t[i] = a[i]; deep(a, t); }
		if (n > 0) { std::vector<int> c(a); light(Hd{a, st("taken", n)}, sprout::range::make_ptr_range(c.data(), n)); light(Hd{a, st("taken", n)}, sprout::range::make_ptr_range(c.data(), c.data() + n)); }
		{ Ev e("free"); V x; auto c = ad::counting(qb, qb + qc); for (int i : c) x.push_back(i); V y; auto k = ad::blanked(qc, qb); for (int i : k) y.push_back(i); e("x", qb)("y", qc)("cn", x)("bl", y)("nn", V{int(c.size()), int(k.size())}); e.emit(); }
#endif
	}
	return vf::done();
}
