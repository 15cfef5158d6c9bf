// C29: parsing-expression grammars built from sprout::weed, run on many texts.
// Every grammar is built once from wrapped parsers that carry their own syntax tree (as JSON) along.
#include "vf.hpp"
#include <sprout/weed.hpp>
#include <sprout/weed/parser/directive/replace.hpp>
#include <list>
#include <cstring>
#include <sstream>
#ifndef PART
#define PART 1
#endif
using vf::Ev;
typedef std::vector<int> V;
namespace w = sprout::weed;
static V codes(std::string const& s) { V v; for (char c : s) v.push_back(static_cast<unsigned char>(c)); return v; }
static std::string num(long long v) { std::ostringstream o; o << v; return o.str(); }
// ---- a parser with its tree
template<typename P> struct W { P p; std::string a; };
template<std::size_t N> struct W<char[N]> { char p[N]; std::string a; };
template<typename P> W<P> mk(P const& p, std::string a) { W<P> r = {p, a}; return r; }
static std::string nd(std::string t, std::string x) { return "[\"" + t + "\"," + x + "]"; }
static std::string nd(std::string t, std::string x, std::string y) { return nd(t, x + "," + y); }
#define BIN(OP, T) template<typename A, typename B> auto operator OP(W<A> const& x, W<B> const& y) -> W<typename std::decay<decltype(x.p OP y.p)>::type> { return mk<typename std::decay<decltype(x.p OP y.p)>::type>(x.p OP y.p, nd(T, x.a, y.a)); }
BIN(>>, "seq") BIN(|, "alt") BIN(-, "minus") BIN(%, "list")
#define UN(OP, T) template<typename A> auto operator OP(W<A> const& x) -> W<typename std::decay<decltype(OP x.p)>::type> { return mk<typename std::decay<decltype(OP x.p)>::type>(OP x.p, nd(T, x.a)); }
UN(*, "star") UN(+, "plus") UN(-, "opt") UN(!, "not") UN(&, "and")
static W<char> c(char x) { return mk(x, nd("chr", num((unsigned char)x))); }
template<std::size_t N> W<char[N]> l(char const (&s)[N]) { W<char[N]> r; std::memcpy(r.p, s, N); r.a = nd("lit", vf::js(codes(s))); return r; }
template<typename P> W<P> t(P const& p, std::string tree) { return mk(p, tree); }
template<typename T> auto lit(T x) -> W<decltype(w::lit(x))> { return mk(w::lit(x), nd("chr", num((unsigned char)x))); }
template<std::size_t N> auto lits(char const (&s)[N]) -> W<typename std::decay<decltype(w::lit(s))>::type> { return mk(w::lit(s), nd("lit", vf::js(codes(s)))); }
template<std::size_t N> auto strs(char const (&s)[N]) -> W<typename std::decay<decltype(w::string(s))>::type> { return mk(w::string(s), nd("str", vf::js(codes(s)))); }
template<std::size_t N> auto set(char const (&s)[N]) -> W<typename std::decay<decltype(w::char_(s))>::type> { return mk(w::char_(s), nd("set", vf::js(codes(s)))); }
static W<w::any_char_p> any() { return mk(w::char_, "[\"any\"]"); }
static auto ch(char x) -> W<decltype(w::char_(x))> { return mk(w::char_(x), nd("char", num(x))); }
static auto rng(char x, char y) -> W<decltype(w::char_(x, y))> { return mk(w::char_(x, y), nd("range", num((unsigned char)x), num((unsigned char)y))); }
static W<w::eps_p> eps() { return mk(w::eps, "[\"eps\"]"); }
static W<w::eoi_p> eoi() { return mk(w::eoi, "[\"eoi\"]"); }
static W<w::eol_p> eol() { return mk(w::eol, "[\"eol\"]"); }
#define CLS(P, NAME) t(P, "[\"cls\",\"" NAME "\"]")
#define CLSN(P, NAME) t(P, "[\"clsn\",\"" NAME "\"]")
// numeric: signed?, radix, least and most digits (0: any number), bits
#define NUM(P, SG, RX, MN, MX, BT) t(P, "[\"num\"," #SG "," #RX "," #MN "," #MX "," #BT "]")
#define INT_ NUM(w::int_, 1, 10, 1, 0, 64)
#define UINT_ NUM(w::uint_, 0, 10, 1, 0, 64)
template<std::size_t N, typename P> auto lim(W<P> const& x) -> W<typename std::decay<decltype(w::lim<N>(x.p))>::type> { return mk(w::lim<N>(x.p), nd("lim", num(N) + ",\"discard\"", x.a)); }
template<std::size_t N, typename P> auto lim(W<P> const& x, w::limited::category k) -> W<typename std::decay<decltype(w::lim<N>(x.p, k))>::type> {
	return mk(w::lim<N>(x.p, k), nd("lim", num(N) + (k == w::limited::discard ? ",\"discard\"" : k == w::limited::circular ? ",\"circular\"" : ",\"stopover\""), x.a));
}
#define DISC w::limited::discard
#define CIRC w::limited::circular
#define STOP w::limited::stopover
#define DIR(F, T) template<typename P> auto F(W<P> const& x) -> W<typename std::decay<decltype(w::F[x.p])>::type> { return mk(w::F[x.p], nd(T, x.a)); }
DIR(omit, "omit") DIR(as_array, "arr") DIR(as_tuple, "tup")
template<typename P> auto rep(W<P> const& x) -> W<typename std::decay<decltype(w::repeat[x.p])>::type> { return mk(w::repeat[x.p], nd("rep", "-1", x.a)); }
template<typename P> auto rep(std::size_t n, W<P> const& x) -> W<typename std::decay<decltype(w::repeat(n)[x.p])>::type> { return mk(w::repeat(n)[x.p], nd("rep", num(n), x.a)); }
template<typename P> auto repl(int v, W<P> const& x) -> W<typename std::decay<decltype(w::replace(v)[x.p])>::type> { return mk(w::replace(v)[x.p], nd("repl", "[\"i\",32,1]," + num(v), x.a)); }
template<typename P> auto repl(char v, W<P> const& x) -> W<typename std::decay<decltype(w::replace(v)[x.p])>::type> { return mk(w::replace(v)[x.p], nd("repl", "[\"c\"]," + num(v), x.a)); }
template<typename P> auto repls(sprout::string<4> const& v, W<P> const& x) -> W<typename std::decay<decltype(w::replace(v)[x.p])>::type> { return mk(w::replace(v)[x.p], nd("repl", "[\"str\",4]," + vf::js(codes(v.c_str())), x.a)); }
struct Dbl { SPROUT_CONSTEXPR std::intmax_t operator()(std::intmax_t v) const { return v * 2; } };
struct Len { template<typename S> SPROUT_CONSTEXPR int operator()(S const& s) const { return int(s.size()); } };
struct Up { SPROUT_CONSTEXPR char operator()(char x) const { return char(x ^ 32); } };
template<typename P> auto dbl(W<P> const& x) -> W<typename std::decay<decltype(x.p ->* Dbl())>::type> { return mk<typename std::decay<decltype(x.p ->* Dbl())>::type>(x.p ->* Dbl(), nd("act", "\"dbl\"", x.a)); }
template<typename P> auto len(W<P> const& x) -> W<typename std::decay<decltype(x.p ->* Len())>::type> { return mk<typename std::decay<decltype(x.p ->* Len())>::type>(x.p ->* Len(), nd("act", "\"len\"", x.a)); }
template<typename P> auto up(W<P> const& x) -> W<typename std::decay<decltype(x.p ->* Up())>::type> { return mk<typename std::decay<decltype(x.p ->* Up())>::type>(x.p ->* Up(), nd("act", "\"up\"", x.a)); }
// ---- attributes: the type and the value
template<typename T> struct At;
template<> struct At<w::unused> { static std::string ty() { return "[\"u\"]"; } static std::string v(w::unused const&) { return "[]"; } };
template<> struct At<char> { static std::string ty() { return "[\"c\"]"; } static std::string v(char x) { return num((unsigned char)x); } };
template<> struct At<wchar_t> { static std::string ty() { return "[\"c\"]"; } static std::string v(wchar_t x) { return num((unsigned char)(char)x); } };
#define ATI(T, B, S) template<> struct At<T> { static std::string ty() { return "[\"i\"," #B "," #S "]"; } static std::string v(T x) { return x > T(2147483646) || (x < T(0) && (long long)x < -2147483646) ? "-2147483647" : num((long long)x); } };
#define ATN(T, B, S) template<> struct At<T> { static std::string ty() { return "[\"i\"," #B "," #S "]"; } static std::string v(T x) { return num((long long)x); } };
ATN(std::int8_t, 8, 1) ATN(std::uint8_t, 8, 0) ATN(std::int16_t, 16, 1) ATN(std::uint16_t, 16, 0) ATI(std::int32_t, 32, 1) ATI(std::uint32_t, 32, 0) ATI(std::int64_t, 64, 1) ATI(std::uint64_t, 64, 0)
template<typename C, std::size_t N> struct At<sprout::basic_string<C, N> > {
	static std::string ty() { return "[\"str\"," + num(N) + "]"; }
	static std::string v(sprout::basic_string<C, N> const& x) { V r; for (std::size_t k = 0; k < x.size(); ++k) r.push_back((unsigned char)(char)x[k]); return vf::js(r); }
};
template<typename T, std::size_t N> struct At<sprout::array<T, N> > {
	static std::string ty() { return "[\"arr\"," + At<T>::ty() + "," + num(N) + "]"; }
	static std::string v(sprout::array<T, N> const& x) { std::string r; for (std::size_t k = 0; k < N; ++k) r += (k ? "," : "") + At<T>::v(x[k]); return "[" + r + "]"; }
};
template<typename... Ts> struct At<sprout::tuples::tuple<Ts...> > {
	typedef sprout::tuples::tuple<Ts...> T;
	static std::string ty() { std::string r; std::string a[] = {At<Ts>::ty()...}; for (auto& s : a) r += (r.empty() ? "" : ",") + s; return "[\"tup\",[" + r + "]]"; }
	template<std::size_t K> static typename std::enable_if<(K == sizeof...(Ts)), std::string>::type go(T const&) { return ""; }
	template<std::size_t K> static typename std::enable_if<(K < sizeof...(Ts)), std::string>::type go(T const& x) {
		return (K ? "," : "") + At<typename std::decay<decltype(sprout::tuples::get<K>(x))>::type>::v(sprout::tuples::get<K>(x)) + go<K + 1>(x);
	}
	static std::string v(T const& x) { return "[" + go<0>(x) + "]"; }
};
template<typename A, typename B> struct At<sprout::variant<A, B> > {
	static std::string ty() { return "[\"var\"," + At<A>::ty() + "," + At<B>::ty() + "]"; }
	static std::string v(sprout::variant<A, B> const& x) { return x.which() == 0 ? "[0," + At<A>::v(x.template get_at<0>()) + "]" : "[1," + At<B>::v(x.template get_at<1>()) + "]"; }
};
// ---- one grammar on many texts, four ways of giving the text
static int G = 0;
template<typename R, typename It> std::string res(R const& r, It first) {
	return std::string(r.success() ? "1" : "0") + "," + num(std::distance(first, r.current())) + "," + (r.success() ? At<typename std::decay<decltype(r.attr())>::type>::v(r.attr()) : "[]");
}
template<typename P> void run(W<P> const& g, std::vector<std::string> const& ts) {
	++G; typedef typename std::decay<decltype(w::parse((char const*)0, (char const*)0, g.p).attr())>::type A;
	for (std::size_t k = 0; k < ts.size(); k += 20) {
		std::string out;
		for (std::size_t j = k; j < ts.size() && j < k + 20; ++j) {
			std::string const& s = ts[j]; std::string o;
			// exactly as long as the text: a read past the end is an out-of-bounds read
			std::vector<char> v(s.begin(), s.end());
			int how = int((j + G) % 4);
			if (how == 0) o = res(w::parse(v.data(), v.data() + v.size(), g.p), v.data());
			else if (how == 1) { std::list<char> ls(s.begin(), s.end()); o = res(w::parse(ls.begin(), ls.end(), g.p), ls.begin()); }
			else if (how == 2) o = res(w::parse(v, g.p), const_cast<std::vector<char> const&>(v).begin());
			else o = res(w::parse_range(s, g.p), s.begin());
			out += (out.empty() ? "" : ",") + ("[" + vf::js(codes(s)) + "," + o + "]");
		}
		Ev e("peg"); e("g", vf::raw{g.a})("ty", vf::raw{At<A>::ty()})("t", vf::raw{"[" + out + "]"}); e.emit();
	}
}
typedef std::vector<std::string> T;
// every text over the letters up to a length, and some longer ones
static T texts(std::string const& abc, int len, int extra = 30, int longest = 12) {
	T r; r.push_back(""); std::size_t lo = 0;
	for (int k = 1; k <= len; ++k) { std::size_t hi = r.size(); for (std::size_t j = lo; j < hi; ++j) for (char x : abc) r.push_back(r[j] + x); lo = hi; }
	if (vf::thorough()) extra *= 10;
	for (int k = 0; k < extra; ++k) { std::string s; for (int n = vf::rnd(0, longest); n > 0; --n) s += abc[std::size_t(vf::rnd(0, int(abc.size()) - 1))]; r.push_back(s); }
	return r;
}
static T every() { T r; r.push_back(""); for (int k = 0; k < 256; ++k) { r.push_back(std::string(1, char(k))); if (k % 3 == 0) r.push_back(std::string(1, char(k)) + char(vf::rnd(0, 255))); } return r; }
int main(int ac, char** av) {
	vf::init(ac, av);
	bool th = vf::thorough(); (void)th;
#if PART == 1
	T e = every();
	run(any(), e); run(ch('b'), e); run(rng('a', 'f'), e); run(lit('q'), e); run(c('q') >> eps(), e); run(eps(), e); run(eoi(), e);
	run(set("x"), e); run(set("abx"), e); run(set("a-f"), e); run(set("0-9a-fA-F"), e); run(set("_b-d.!-%"), e); run(set("qwertyuiop"), e); run(set("zz"), e);
	run(set("-ab"), e); run(set("ab-"), e); run(set("-"), e); run(set("b-d-"), e); run(set("-p-r"), e);
	run(CLS(w::alnum, "alnum"), e); run(CLS(w::alpha, "alpha"), e); run(CLS(w::blank, "blank"), e); run(CLS(w::cntrl, "cntrl"), e); run(CLS(w::digit, "digit"), e); run(CLS(w::graph, "graph"), e);
	run(CLS(w::print, "print"), e); run(CLS(w::punct, "punct"), e); run(CLS(w::space, "space"), e); run(CLS(w::xdigit, "xdigit"), e); run(CLS(w::lower, "lower"), e); run(CLS(w::upper, "upper"), e);
	run(CLSN(w::alnum_, "alnum"), e); run(CLSN(w::alpha_, "alpha"), e); run(CLSN(w::blank_, "blank"), e); run(CLSN(w::cntrl_, "cntrl"), e); run(CLSN(w::digit_, "digit"), e); run(CLSN(w::graph_, "graph"), e);
	run(CLSN(w::print_, "print"), e); run(CLSN(w::punct_, "punct"), e); run(CLSN(w::space_, "space"), e); run(CLSN(w::xdigit_, "xdigit"), e); run(CLSN(w::lower_, "lower"), e); run(CLSN(w::upper_, "upper"), e);
	T ab = texts("ab", 5); run(lits("ab"), ab); run(lits("abba"), ab); run(strs("ab"), ab); run(strs("aba"), ab); run(strs("b"), ab); run(lits(""), ab); run(eps() >> l("aab"), ab); run(l("ba") >> any(), ab);
	T nl = texts("\r\nx", 4); run(eol(), nl); run(any() >> eol() >> any(), nl); run(*eol() >> eoi(), nl);
#endif
#if PART == 2
	T ab = texts("ab", 4), abc = texts("abc", 4);
	run(any() >> any(), ab); run(ch('a') >> ch('b') >> any(), ab); run(any() >> c('a') >> any(), ab); run(c('a') >> any(), ab); run(any() >> c('b'), ab); run(c('a') >> lit('b') >> c('a'), ab);
	run(strs("ab") >> any(), ab); run(any() >> strs("ab"), ab); run(strs("ab") >> strs("ba"), ab); run(strs("a") >> any() >> strs("b") >> any(), ab); run(strs("ab") >> c('a') >> strs("b"), ab);
	T d = texts("1a+-", 4, 30, 9);
	run(INT_ >> any(), d); run(any() >> INT_, d); run(INT_ >> c('a') >> INT_, d); run(INT_ >> any() >> INT_, d); run(any() >> INT_ >> any(), d); run((any() >> INT_) >> (any() >> INT_), d); run(UINT_ >> INT_, d); run(strs("a") >> INT_, d); run(INT_ >> strs("a"), d); run(any() >> any() >> INT_, d);
	run(as_tuple(any()) >> any(), ab); run(any() >> as_tuple(any()), ab); run(as_tuple(strs("ab")) >> as_tuple(any()), ab); run(as_tuple(any() >> any()) >> c('a') >> as_tuple(any()), ab); run(as_array(any()), ab); run(as_array(any()) >> as_array(any()), ab); run(as_array(strs("ab")) >> as_array(strs("ba")), ab);
	run(as_array(any() >> any()) >> any(), ab); run(omit(any()) >> any(), ab); run(any() >> omit(any() >> any()), ab); run(omit(any()) >> omit(strs("ab")), ab); run(omit(INT_) >> any(), d);
	run(repl(7, ch('a')) >> any(), ab); run(repl('z', strs("ab")) >> any(), ab); run(repls(sprout::string<4>("xyz"), ch('a')) >> any(), ab); run(*lim<3>(repl(7, c('a'))), ab); run(*lim<3>(repl('q', c('a')) | any()), ab);
	run(dbl(INT_), d); run(dbl(INT_) >> any() >> dbl(INT_), d); run(len(strs("ab")), ab); run(len(*lim<3>(ch('a'))) >> any(), ab); run(up(any()) >> any(), ab); run(*lim<4>(up(ch('a')) | any()), ab);
	run((any() >> any()) >> (any() >> any()), ab); run(!eoi() >> any() >> eoi(), ab); run(any() >> !lit('a') >> any(), ab); run(any() >> &lit('a') >> any(), ab); run(!(ch('a') >> ch('b')) >> any(), ab); run(&(ch('a') >> ch('b')) >> any(), ab); run(!!lit('a') >> any(), ab); run(&!lit('a') >> any(), ab);
	run(-lit('a') >> any(), ab); run(-lits("ab") >> c('a'), ab); run(-(c('a') >> lit('b')) >> any(), ab); run(-omit(ch('a') >> ch('b')) >> eoi(), ab); run(any() >> -lit('b') >> any(), ab);
#endif
#if PART == 3
	T ab = texts("ab", 4), abc = texts("abc", 4), d = texts("1a+-", 4, 30, 9);
	run(ch('a') | ch('b'), ab); run((ch('a') >> ch('b')) | (ch('a') >> ch('a')), ab); run((ch('a') >> ch('b') >> any()) | (ch('a') >> any()), ab); run((ch('a') >> any()) | (ch('b') >> any() >> any()), ab);
	run(strs("ab") | strs("a"), ab); run(strs("a") | strs("ab"), ab); run(strs("ab") | any(), ab); run(any() | strs("ab"), ab); run(ch('b') | strs("aab"), ab); run(strs("aab") | ch('b'), ab); run((strs("ab") | strs("a")) >> any(), ab); run((strs("a") | strs("ab")) >> ch('b'), ab);
	run(ch('a') | c('b'), ab); run(c('a') | ch('b'), ab); run((ch('a') | c('b')) >> any(), ab); run((c('a') | any()) >> (ch('b') | c('a')), ab); run(lit('a') | lit('b'), ab); run((lit('a') | c('b')) >> any(), ab); run(l("ab") | any(), ab); run(any() | l("ab"), ab); run(lits("ab") | (lit('a') >> lit('a')) | lit('b'), ab);
	run(INT_ | any(), d); run(any() | INT_, d); run((INT_ | ch('a')) >> any(), d); run(any() >> (ch('a') | INT_), d); run(INT_ | UINT_, d); run(INT_ | strs("+a"), d); run((INT_ >> c('a')) | INT_, d); run(INT_ | c('a'), d); run(c('a') | INT_, d);
	run((ch('a') >> INT_) | (any() >> INT_), d); run(as_tuple(ch('a')) | as_tuple(ch('b')), ab);
	run((ch('a') | ch('b')) | ch('c'), abc); run(ch('a') | (ch('b') | ch('c')), abc); run((ch('a') | eps()) >> any(), ab); run(strs("abc") | strs("ab") | strs("a") | strs("c"), abc);
	run(any() - ch('a'), ab); run(strs("ab") - strs("aba"), ab); run(any() - lits("ab"), ab); run((any() >> any()) - lits("ab"), ab); run((any() >> any()) - (any() >> c('b')), ab); run((any() - c('a')) >> (any() - c('b')), ab); run(any() - (lit('a') | c('b')), abc); run(INT_ - lits("11"), d); run((any() | INT_) - c('1'), d);
	run(omit(ch('a') | strs("ba")) >> any(), ab); run(+lim<4>(ch('a') | ch('b')), abc); run(*lim<2>(strs("ab") | strs("c")), abc); run((*lim<2>(ch('a'))) | (*lim<3>(ch('b'))), ab); run((+lim<2>(ch('a'))) | (+lim<3>(ch('b'))), ab);
	run(repl(1, c('a')) | repl(2, c('b')), ab); run(repl(1, c('a')) | ch('b'), ab); run(*lim<3>(repl(1, c('a')) | repl(2, c('b'))), ab); run(*lim<3>(ch('a') | repl(9, c('b'))), ab); run(+lim<3>(INT_ | ch('a')), d);
#endif
#if PART == 4
	T ab = texts("ab", 5), abc = texts("abc", 4), l3 = texts("a,", 6), d = texts("1,a", 4, 30, 9);
	run(*lim<3>(ch('a')), ab); run(*lim<3>(ch('a'), CIRC), ab); run(*lim<3>(ch('a'), STOP), ab); run(*lim<3>(any()), ab); run(*lim<3>(any(), CIRC), ab); run(*lim<3>(any(), STOP), ab); run(*lim<1>(any()), ab); run(*lim<1>(any(), CIRC), ab); run(*lim<1>(any(), STOP), ab); run(*lim<2>(any(), STOP), ab); run(*lim<2>(any(), CIRC), ab);
	run(+lim<3>(ch('a')), ab); run(+lim<3>(ch('a'), CIRC), ab); run(+lim<3>(any(), CIRC), ab); run(+lim<3>(any(), STOP), ab); run(+lim<1>(any()), ab); run(+lim<1>(any(), CIRC), ab); run(+lim<1>(any(), STOP), ab); run(+lim<2>(any(), STOP), ab); run(+lim<2>(any()), ab);
	run(*omit(ch('a')) >> any(), ab); run(+omit(ch('a')) >> any(), ab); run(*lit('a') >> any(), ab); run(+lit('a') >> any(), ab); run(+lits("ab") >> any(), ab); run(*(lit('a') | lit('b')) >> eoi(), abc); run(*(lit('a') >> *lit('b')) >> any(), abc); run(*(omit(any()) - c('b')) >> any(), ab);
	run(*lim<3>(ch('a')) >> any(), ab); run(*lim<2>(any(), STOP) >> *lim<2>(any(), STOP) >> eoi(), ab); run(as_tuple(*lim<2>(ch('a'))) >> as_tuple(*lim<2>(ch('b'))), ab); run(*lim<2>(ch('a')) >> *lim<2>(ch('b')), ab); run(any() >> *lim<2>(ch('b')), ab); run(*lim<4>(any() - c('b')) >> c('b') >> *lim<4>(any()), ab);
	run(*lim<2>(ch('a') >> ch('b')), ab); run(*lim<2>(strs("ab"), CIRC), ab); run(*lim<2>(*lim<2>(ch('a')) >> ch('b')), ab); run(+lim<2>(*lim<3>(ch('a')) >> c('b'), STOP), ab); run(+lim<2>(+lim<2>(ch('a'), CIRC) >> c('b'), CIRC), ab); run(*lim<3>(c('a') >> any()), ab); run(*lim<3>(any() >> c('b')), ab);
	run(*lim<3>(INT_ >> c(',')), d); run(*lim<3>(as_tuple(INT_ >> any())), d); run(*lim<2>(INT_ >> ch('a')), d); run(+lim<3>(INT_ >> c(','), CIRC), d);
	run(lim<3>(ch('a')) % c(','), l3); run(lim<3>(ch('a'), CIRC) % c(','), l3); run(lim<3>(ch('a'), STOP) % c(','), l3); run(lim<1>(ch('a')) % c(','), l3); run(lim<1>(ch('a'), CIRC) % c(','), l3); run(lim<1>(ch('a'), STOP) % c(','), l3); run(lim<2>(ch('a'), STOP) % c(','), l3); run((lim<3>(ch('a')) % c(',')) >> any(), l3);
	run(lit('a') % c(','), l3); run((lit('a') % c(',')) >> any(), l3); run(omit(ch('a')) % ch(','), l3); run(lim<3>(INT_) % c(','), d); run((lim<3>(INT_) % c(',')) >> c('a'), d); run(lim<3>(ch('a')) % lits(",,"), l3); run(lim<2>(+lim<2>(ch('a'))) % c(','), l3); run((lit('a') % lits(",,")) >> c(','), l3);
	run((lim<3>(INT_) % c(',')) >> any() >> (lim<2>(ch('a')) % c(',')), d);
#endif
#if PART == 5
	T ab = texts("ab", 6);
	run(rep(lim<3>(ch('a'))), ab); run(rep(lim<2>(any())), ab); run(rep(0, lim<3>(ch('a'))), ab); run(rep(1, lim<3>(ch('a'))), ab); run(rep(2, lim<3>(ch('a'))), ab); run(rep(3, lim<3>(ch('a'))), ab); run(rep(2, lim<4>(any())) >> any(), ab); run(rep(2, lim<4>(ch('a'))) >> any(), ab); run(rep(1, lim<2>(strs("ab"))), ab); run(rep(1, lim<2>(any() >> ch('b'))) >> ch('a'), ab);
	run(rep(lit('a')) >> any(), ab); run(rep(0, lit('a')) >> any(), ab); run(rep(1, lit('a')) >> any(), ab); run(rep(2, lit('a')) >> any(), ab); run(rep(3, omit(any() - c('b'))) >> any(), ab); run(rep(2, lits("ab")) >> eoi(), ab); run(rep(lim<1>(ch('a'))), ab); run(rep(0, lim<1>(ch('a'))) >> any(), ab); run(rep(1, lim<1>(ch('a'))) >> any(), ab);
	T d = texts("10-+", 4, 30, 9), d7 = texts("0179", 3, 200, 7), x = texts("0fF9g", 3, 200, 7);
	for (int k = 0; k < 40; ++k) { d.push_back((vf::rnd(0, 1) ? "-" : "+") + std::string(1, char(48 + vf::rnd(0, 9))) + num(vf::rnd(0, 99999999))); d.push_back(num(vf::rnd(-130, 300))); d.push_back(num(vf::rnd(-40000, 70000)) + "x"); d7.push_back(num(vf::rnd(0, 300))); d7.push_back(num(vf::rnd(0, 70000)) + ";"); }
	run(INT_, d); run(UINT_, d); run(NUM(w::int8, 1, 10, 1, 3, 8), d); run(NUM(w::int16, 1, 10, 1, 5, 16), d); run(NUM(w::int32, 1, 10, 1, 10, 32), d); run(NUM(w::int64, 1, 10, 1, 19, 64), d); run(NUM(w::uint8, 0, 10, 1, 3, 8), d7); run(NUM(w::uint16, 0, 10, 1, 5, 16), d7); run(NUM(w::uint32, 0, 10, 1, 10, 32), d7); run(NUM(w::uint64, 0, 10, 1, 20, 64), d7); run(UINT_, d7);
	run(NUM(w::bin, 0, 2, 1, 0, 64), d7); run(NUM(w::bin8, 0, 2, 1, 8, 8), texts("012", 3, 200, 14)); run(NUM(w::bin16, 0, 2, 1, 16, 16), texts("01", 3, 200, 25)); run(NUM(w::bin32, 0, 2, 1, 32, 32), texts("01", 3, 100, 28)); run(NUM(w::bin64, 0, 2, 1, 64, 64), texts("01", 3, 100, 28)); run(NUM(w::bin8f, 0, 2, 8, 8, 8), texts("0001112", 2, 300, 12)); run(NUM(w::bin16f, 0, 2, 16, 16, 16), texts("00000000000011111111111112", 1, 200, 24));
	run(NUM(w::oct, 0, 8, 1, 0, 64), texts("01789", 3, 100, 9)); run(NUM(w::oct8, 0, 8, 1, 3, 8), texts("0178", 4)); run(NUM(w::oct16, 0, 8, 1, 6, 16), texts("01378", 3, 100, 9)); run(NUM(w::oct32, 0, 8, 1, 11, 32), texts("01378", 3, 100, 9)); run(NUM(w::oct64, 0, 8, 1, 22, 64), texts("01378", 3, 100, 9)); run(NUM(w::oct8f, 0, 8, 3, 3, 8), texts("0178", 4)); run(NUM(w::oct16f, 0, 8, 6, 6, 16), texts("0011337778", 1, 200, 9)); run(NUM(w::oct32f, 0, 8, 11, 11, 32), texts("0008", 1, 100, 13));
	T h64; for (int k = 0; k < 200; ++k) { std::string z(std::size_t(vf::rnd(5, 11)), '0'); for (int n = vf::rnd(0, 7); n > 0; --n) z += "01fAg0000"[vf::rnd(0, 8)]; if (k % 2) z = "000000000" + z.substr(4); h64.push_back(z); }
	run(NUM(w::hex, 0, 16, 1, 0, 64), x); run(NUM(w::hex8, 0, 16, 1, 2, 8), x); run(NUM(w::hex16, 0, 16, 1, 4, 16), x); run(NUM(w::hex32, 0, 16, 1, 8, 32), x); run(NUM(w::hex64, 0, 16, 1, 16, 64), x); run(NUM(w::hex8f, 0, 16, 2, 2, 8), x); run(NUM(w::hex16f, 0, 16, 4, 4, 16), x); run(NUM(w::hex32f, 0, 16, 8, 8, 32), texts("0000000001g", 1, 200, 12)); run(NUM(w::hex64f, 0, 16, 16, 16, 64), h64);
	typedef w::int_p<int, 10, 2, 3> i23; typedef w::uint_p<unsigned, 10, 2, 4> u24; typedef w::uint_p<std::uint8_t, 16, 2, 4> x24; typedef w::uint_p<unsigned, 10, 3> u3; typedef w::int_p<int, 16, 1, 3> ix; typedef w::uint_p<std::uint8_t, 10, 4, 6> u46; typedef w::uint_p<unsigned, 10, 1, 1> u1; typedef w::int_p<int, 10, 1, 1> i1;
	run(NUM(i23(), 1, 10, 2, 3, 32), d); run(NUM(u24(), 0, 10, 2, 4, 32), d7); run(NUM(x24(), 0, 16, 2, 4, 8), x); run(NUM(u3(), 0, 10, 3, 10, 32), d7); run(NUM(ix(), 1, 16, 1, 3, 32), texts("-fF9", 3, 50)); run(NUM(u46(), 0, 10, 4, 6, 8), d7);
#ifdef ONE
	run(NUM(u1(), 0, 10, 1, 1, 32), d7); run(NUM(i1(), 1, 10, 1, 1, 32), d); run(*lim<3>(NUM(u1(), 0, 10, 1, 1, 32)), d7);
#endif
	run(INT_ >> c('-') >> INT_, d); run(lim<3>(INT_) % c('+'), d); run(NUM(w::hex8f, 0, 16, 2, 2, 8) >> NUM(w::hex8f, 0, 16, 2, 2, 8), x); run(*lim<3>(NUM(w::hex8f, 0, 16, 2, 2, 8)), x);
#endif
	return vf::done();
}
