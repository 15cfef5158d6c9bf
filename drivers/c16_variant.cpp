// C16: histories over three variants; visitation, access and comparison of every reachable pair of states.
#define SPROUT_ENABLE_ASSERT_HANDLER
#include "vf.hpp"
#include <sprout/assert.hpp>
struct refused {};
namespace sprout { void assertion_failed(sprout::assertion_info const&) { throw refused(); } void assertion_failed_msg(sprout::assertion_info_msg const&) { throw refused(); } }
#include <sprout/variant.hpp>
#include <sprout/string.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/utility/swap.hpp>
#include <sstream>
typedef std::vector<int> V;
template<int I> struct alt { int v; alt() : v(0) {} explicit alt(int x) : v(x) {} bool operator==(alt const& o) const { return v == o.v; } bool operator<(alt const& o) const { return v < o.v; } };
template<int I> std::size_t hash_value(alt<I> const& a) { return std::size_t(a.v); }
template<int I> std::ostream& operator<<(std::ostream& s, alt<I> const& a) { return s << char('p' + I) << a.v; }
typedef sprout::string<3> str;
inline int val(int v) { return v; } inline int val(long v) { return int(v); } template<int I> int val(alt<I> const& a) { return a.v; } inline int val(str const& s) { return s.empty() ? 0 : s[0] - 'a'; } inline int val(char c) { return c; }
template<typename T> struct mk { static T of(int v) { return T(v); } };
template<> struct mk<str> { static str of(int v) { char c[3] = {char('a' + v), 'x', 0}; return str(c); } };
template<typename F> bool refuses(F f) { try { f(); } catch (refused const&) { return true; } return false; }
template<typename... Ts> struct types { template<int I> struct at { typedef typename std::tuple_element<I, std::tuple<Ts...> >::type type; }; static constexpr int n = sizeof...(Ts); };
template<typename L> struct index_of;	// which alternative a visitor was called with
template<typename T, typename... Ts> struct idx { static constexpr int value = -1; };
template<typename T, typename U, typename... Ts> struct idx<T, U, Ts...> { static constexpr int value = std::is_same<T, U>::value ? 0 : idx<T, Ts...>::value < 0 ? -1 : 1 + idx<T, Ts...>::value; };
// visitors: result_type / static_visitor / deduced / void / by non-const reference
template<typename... Ts> struct vis1 { typedef int result_type; int* calls; template<typename T> int operator()(T const& t) const { ++*calls; return idx<T, Ts...>::value * 100 + val(t); } };
template<typename... Ts> struct vis2 : sprout::static_visitor<long> { int* calls; template<typename T> long operator()(T const& t) const { ++*calls; return idx<T, Ts...>::value * 100 + val(t); } };
template<typename... Ts> struct vis3 { int* calls; template<typename T> int operator()(T const& t) const { ++*calls; return idx<T, Ts...>::value * 100 + val(t); } };
template<typename... Ts> struct vis4 : sprout::static_visitor<> { int* calls; int* out; template<typename T> void operator()(T const& t) const { ++*calls; *out = idx<T, Ts...>::value * 100 + val(t); } };
template<typename... Ts> struct vis5 : sprout::static_visitor<> { int* calls; int v; template<typename T> void operator()(T& t) const { ++*calls; t = mk<T>::of(v); } };
template<typename... Ts> struct vis6 : sprout::static_variant_visitor { int* calls; template<typename T> T operator()(T const& t) const { ++*calls; return t; } };
template<typename... Ts> struct suite {
	typedef sprout::variant<Ts...> X; typedef std::tuple<Ts...> L; static constexpr int n = sizeof...(Ts);
	template<int I, bool = (I < n)> struct each {
		static bool access(X& x, int w, int v) {
			typedef typename std::tuple_element<I, L>::type T; X const& c = x; bool ok;
			if (w == I) ok = val(sprout::get<T>(c)) == v && val(sprout::get<T>(x)) == v && val(c.template get_at<I>()) == v && val(x.template get_at<I>()) == v && val(sprout::tuples::get<I>(c)) == v && val(sprout::tuples::get<I>(x)) == v && val(c.template get<T>()) == v;
			else ok = refuses([&] { (void)sprout::get<T>(c); }) && refuses([&] { (void)sprout::get<T>(x); }) && refuses([&] { (void)c.template get_at<I>(); }) && refuses([&] { (void)x.template get_at<I>(); });
			return ok && each<I + 1>::access(x, w, v);
		}
		static void with(int i, int v, X& x, int how) {
			typedef typename std::tuple_element<I, L>::type T; if (i != I) return each<I + 1>::with(i, v, x, how); T t = mk<T>::of(v); T const k = t;
			switch (how) { case 0: x = t; break; case 1: x = k; break; case 2: x = mk<T>::of(v); break; case 3: { X n(t); x = n; } break; case 4: { X const n(k); x = n; } break; case 5: { X n = mk<T>::of(v); x = sprout::move(n); } break; case 6: x = X(mk<T>::of(v)); break; }
		}
		static void poke(int i, int v, X& x) { typedef typename std::tuple_element<I, L>::type T; if (i != I) return each<I + 1>::poke(i, v, x); sprout::get<T>(x) = mk<T>::of(v); }
	};
	template<int I> struct each<I, false> { static bool access(X&, int, int) { return true; } static void with(int, int, X&, int) {} static void poke(int, int, X&) {} };
	static V look(X& x) {
		X const& c = x; int w = c.which(), calls = 0, out = -1; if (w < 0 || w >= n || c.empty()) return V{-1, -1};
		vis1<Ts...> a; a.calls = &calls; vis2<Ts...> b; b.calls = &calls; vis3<Ts...> d; d.calls = &calls; vis4<Ts...> e; e.calls = &calls; e.out = &out; vis6<Ts...> g; g.calls = &calls;
		int r = sprout::apply_visitor(a, c); int v = r - 100 * w; bool ok = calls == 1 && r / 100 == w;
		ok = ok && sprout::apply_visitor(a, x) == r && sprout::apply_visitor(b, c) == r && sprout::apply_visitor(b, x) == r && sprout::apply_visitor(d, c) == r && x.apply_visitor(d) == r && c.apply_visitor(a) == r && calls == 7;
		sprout::apply_visitor(e, c); ok = ok && out == r; out = -1; sprout::apply_visitor(e, x); ok = ok && out == r && calls == 9;
		ok = ok && sprout::apply_visitor(sprout::as_visitor<int>(d), c) == r && calls == 10 && sprout::apply_visitor(sprout::as_visitor(a), c) == r && calls == 11;
		auto y = sprout::apply_visitor(g, c); ok = ok && calls == 12 && y.which() == w && sprout::apply_visitor(a, y) == r;
		auto z = sprout::apply_visitor(sprout::as_variant_visitor(g), c); ok = ok && z.which() == w && sprout::apply_visitor(a, z) == r;
		ok = ok && each<0>::access(x, w, v);
		return ok ? V{w, v} : V{-1, -1};
	}
	static int rel(X const& a, X const& b) { return (a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a > b) + 16 * (a <= b) + 32 * (a >= b); }
	static std::string text(X const& x) { std::ostringstream s; s << x; return s.str(); }
	static void history(int len) {
		X x[3]; vf::begin_history();
		auto show = [&](char const* op, int i, int j, int w = 0, int v = 0) { vf::Ev e(op); e("i", i + 1)("j", j + 1)("v", V{w, v})("a", look(x[0]))("b", look(x[1]))("c", look(x[2])); e.emit(); };
		show("init", 0, 0);
		for (int s = 0; s < len; ++s) {
			int i = vf::rnd(0, 2), j = vf::rnd(0, 2), w = vf::rnd(0, n - 1), v = vf::rnd(0, 3);
			switch (vf::rnd(0, 14)) {
			case 0: x[i] = X(); show("clear", i, j); break;
			case 1: case 2: case 3: case 4: each<0>::with(w, v, x[i], vf::rnd(0, 6)); show("set", i, j, w, v); break;
			case 5: x[i] = x[j]; show("copy", i, j); break;
			case 6: { X const& c = x[j]; x[i] = c; show("copy", i, j); } break;
			case 7: { X m(x[j]); x[i] = sprout::move(m); show("copy", i, j); } break;
			case 8: { X const& c = x[j]; X m(c); x[i] = m; show("copy", i, j); } break;
			case 9: { X m(x[j]); X k(sprout::move(m)); x[i] = k; show("copy", i, j); } break;
			case 10: x[i].swap(x[j]); show("swap", i, j); break;
			case 11: swap(x[i], x[j]); show("swap", i, j); break;
			case 12: each<0>::poke(x[i].which(), v, x[i]); show("poke", i, j, 0, v); break;
			case 13: { int calls = 0; vis5<Ts...> p; p.calls = &calls; p.v = v; if (vf::rnd(0, 1)) sprout::apply_visitor(p, x[i]); else x[i].apply_visitor(p); if (calls == 1) show("poke", i, j, 0, v); else show("poke", i, j, 0, -1); } break;
			case 14: vf::Ev e("pair"); e("i", i + 1)("j", j + 1)("r", rel(x[i], x[j]))("h", sprout::to_hash(x[i]) == sprout::to_hash(x[j]) && std::hash<X>()(x[i]) == std::hash<X>()(x[j]))("t", text(x[i]) == text(x[j])); e.emit(); break;
			}
		}
		vf::end_history();
	}
};
int main(int ac, char** av) {
	vf::init(ac, av); int n = vf::thorough() ? 4000 : 250;
	for (int i = 0; i < n; ++i) { suite<int, long, alt<0>, alt<1> >::history(40); suite<alt<2>, int>::history(20); suite<alt<1>, str, int, alt<2>, long>::history(30); suite<int>::history(8); }
	return vf::done();
}
