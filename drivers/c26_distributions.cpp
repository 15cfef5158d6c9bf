// C26: random distributions, driven by generators that deliver a chosen sequence of numbers.
#include "vf.hpp"
#include <sprout/random.hpp>
#include <sprout/random/iterator.hpp>
#include <sprout/random/range.hpp>
#include <sprout/random/generate_array.hpp>
#include <sstream>
#include <cstdint>
#include <cmath>
#ifndef PART
#define PART 1
#endif
using vf::Ev; namespace R = sprout::random; typedef unsigned __int128 u128; typedef __int128 i128;
template<typename T> vf::raw fp(T x) {
	char b[400]; int s = std::signbit(x) ? -1 : 1;
	if (x != x || std::isinf(x)) { std::snprintf(b, sizeof b, "{\"k\":\"%s\",\"s\":%d,\"m\":[],\"e\":0}", x != x ? "q" : "i", s); return vf::raw{b}; }
	int e = 0; long double f = std::frexp((long double)(x < 0 ? -x : x), &e); unsigned long long m = (unsigned long long)std::ldexp(f, 64); e -= 64;
	if (!m) e = 0; while (m && !(m & 1)) { m >>= 1; ++e; }
	std::string r = vf::big(m).s; std::snprintf(b, sizeof b, "{\"k\":\"n\",\"s\":%d,\"m\":%s,\"e\":%d}", s, r.c_str(), e); return vf::raw{b};
}
static const char* fmt(float) { return "f"; } static const char* fmt(double) { return "d"; }
// numbers above the smallest one, then zeros for ever
static u128 T_[64]; static int LEN_ = 0;
static void table(std::vector<u128> const& v) { LEN_ = (int)v.size(); for (int i = 0; i < 64; ++i) T_[i] = i < LEN_ ? v[i] : 0; }
static u128 at(int i) { return i < 64 ? T_[i] : 0; }
template<typename U, U lo, U hi> struct Script {
	typedef U result_type; int pos; explicit constexpr Script(int p = 0) : pos(p) {}
	static constexpr U min() { return lo; } static constexpr U max() { return hi; }
	U operator()() { return U((i128)lo + (i128)at(pos++)); }
	R::random_result<Script> const operator()() const { return R::random_result<Script>(U((i128)lo + (i128)at(pos)), Script(pos + 1)); }
	friend bool operator==(Script const& a, Script const& b) { return a.pos == b.pos; } friend bool operator!=(Script const& a, Script const& b) { return a.pos != b.pos; }
	static u128 br() { return (u128)((i128)hi - (i128)lo); } static const bool whole = true;
};
// real numbers k / 2^53
struct Flow {
	typedef double result_type; int pos; explicit constexpr Flow(int p = 0) : pos(p) {}
	static constexpr double min() { return 0; } static constexpr double max() { return 1; }
	static double get(int i) { return std::ldexp((double)(std::uint64_t)at(i), -53); }
	double operator()() { return get(pos++); }
	R::random_result<Flow> const operator()() const { return R::random_result<Flow>(get(pos), Flow(pos + 1)); }
	friend bool operator==(Flow const& a, Flow const& b) { return a.pos == b.pos; } friend bool operator!=(Flow const& a, Flow const& b) { return a.pos != b.pos; }
	static u128 br() { return ((u128)1 << 53) - 1; } static const bool whole = true;
};
static vf::raw ks(int n) { std::string r = "["; for (int i = 0; i < n; ++i) { if (i) r += ","; r += vf::big_digits(at(i)); } return vf::raw{r + "]"}; }
template<typename E> std::vector<u128> numbers(int n) {
	std::vector<u128> v; u128 b = E::br(); for (int i = 0; i < n; ++i) { u128 k = vf::rnd64(); if (b < ~(std::uint64_t)0) k %= b + 1; int w = vf::rnd(0, 9); if (w == 0) k = b; if (w == 1) k = 0; if (w == 2) k = b - (b > 3 ? vf::rnd(0, 3) : 0); if (w == 3) k = b / 2 + vf::rnd(0, 1) % 2; if (k > b) k = b; v.push_back(k); } return v;
}
// the number drawn by the mutating call, by the functional one, and both with parameters of their own
template<typename D, typename E> struct Drawn { typedef typename D::result_type T; T r[4]; int n[4]; bool same; };
template<typename D, typename E> Drawn<D, E> draw(D const& d) {
	Drawn<D, E> x; { E e; D c(d); x.r[0] = c(e); x.n[0] = e.pos; } { E const e; auto q = d(e); x.r[1] = q.result(); x.n[1] = q.engine().pos; }
	D o; typename D::param_type p = d.param(); { E e; x.r[2] = o(e, p); x.n[2] = e.pos; } { E const e; D const& co = o; auto q = co(e, p); x.r[3] = q.result(); x.n[3] = q.engine().pos; }
	x.same = true; for (int i = 1; i < 4; ++i) x.same = x.same && x.n[i] == x.n[0] && x.r[i] == x.r[0]; return x;
}
#if PART == 1
template<typename E, typename T> void ui(T a, T b) {
	R::uniform_int_distribution<T> d(a, b); auto x = draw<R::uniform_int_distribution<T>, E>(d);
	Ev e("ui"); e("a", vf::bigz(a))("b", vf::bigz(b))("br", vf::big(E::br()))("ks", ks(x.n[0]))("r", vf::bigz(x.r[0]))("same", x.same)("mm", d.min() == a && d.max() == b && d.a() == a && d.b() == b); e.emit();
}
template<typename E, typename T> void sm(T a, T b) {
	R::uniform_smallint<T> d(a, b); auto x = draw<R::uniform_smallint<T>, E>(d);
	Ev e("sm"); e("a", vf::bigz(a))("b", vf::bigz(b))("br", vf::big(E::br()))("ks", ks(x.n[0]))("r", vf::bigz(x.r[0]))("same", x.same)("mm", d.min() == a && d.max() == b && d.a() == a && d.b() == b); e.emit();
}
static void smf(int a, int b) {
	R::uniform_smallint<int> d(a, b); auto x = draw<R::uniform_smallint<int>, Flow>(d);
	Ev e("smf"); e("a", vf::bigz(a))("b", vf::bigz(b))("k", vf::big(at(0)))("n", x.n[0])("r", vf::bigz(x.r[0]))("same", x.same); e.emit();
}
// every sequence of numbers of a small generator
template<typename E> void all(int len, int maxr) {
	int b = (int)E::br() + 1; int tot = 1; for (int i = 0; i < len; ++i) tot *= b;
	for (int r = 0; r <= maxr; ++r) for (int w = 0; w < tot; ++w) { std::vector<u128> v; int y = w; for (int i = 0; i < len; ++i) { v.push_back(y % b); y /= b; } table(v); if (vf::rnd(0, 1)) ui<E, int>(-3, -3 + r); else ui<E, unsigned>(5, 5 + r); if (w < b) sm<E, int>(-2, -2 + r); }
}
template<typename E, typename T> void some(int n) {
	typedef std::numeric_limits<T> L;
	for (int i = 0; i < n; ++i) {
		table(numbers<E>(vf::rnd(1, 12)));
		T a, b; switch (vf::rnd(0, 7)) { case 0: a = L::min(); b = L::max(); break; case 1: a = L::min(); b = T(vf::rnd(0, 100)); break; case 2: a = T(vf::rnd(0, 100)); b = L::max(); break; case 3: a = T(vf::rnd(0, 50)); b = T(a + vf::rnd(0, 60)); break;
			case 4: { u128 k = E::br(); u128 w = (u128)((i128)L::max() - (i128)L::min()); a = L::min(); b = k <= w ? T((i128)a + (i128)k) : L::max(); break; }
			case 5: { u128 k = E::br(); u128 w = (u128)((i128)L::max() - (i128)L::min()); a = L::min(); u128 m = k * k + 2 * k + vf::rnd(0, 1); b = (k < ((u128)1 << 62)) && m <= w ? T((i128)a + (i128)m) : L::max(); break; }
			default: a = T(vf::rnd64()); b = T(vf::rnd64()); if (b < a) std::swap(a, b); }
		ui<E, T>(a, b); sm<E, T>(a, b);
	}
}
template<typename E> void each(int n) { some<E, int>(n); some<E, unsigned>(n); some<E, long long>(n); some<E, unsigned long long>(n); some<E, short>(n); some<E, unsigned char>(n); some<E, signed char>(n); some<E, long>(n); }
int main(int ac, char** av) {
	vf::init(ac, av); bool th = vf::thorough();
	all<Script<std::uint32_t, 0, 1> >(5, th ? 20 : 9); all<Script<int, -1, 1> >(4, th ? 20 : 10); all<Script<std::uint32_t, 7, 10> >(th ? 4 : 3, th ? 20 : 8); all<Script<std::uint64_t, 0, 4> >(3, th ? 30 : 7);
	int n = th ? 40 : 7;
	each<Script<std::uint32_t, 0, 0xffffffffu> >(n); each<Script<std::uint32_t, 1, 2147483646u> >(n); each<Script<std::uint32_t, 0, 1> >(n); each<Script<std::uint32_t, 3, 9> >(n); each<Script<std::uint32_t, 0, 255> >(n);
	each<Script<int, -5, 4> >(n); each<Script<int, INT32_MIN, INT32_MAX> >(n); each<Script<std::uint64_t, 0, ~(std::uint64_t)0> >(n); each<Script<std::uint64_t, 10, ((std::uint64_t)1 << 40)> >(n); each<Script<std::int64_t, INT64_MIN, INT64_MAX> >(n); each<Flow>(0);
	for (int i = 0; i < (th ? 500 : 60); ++i) { table(numbers<Flow>(vf::rnd(1, 8))); int a = vf::rnd(-50, 50); int b = vf::rnd(0, 3) ? a + vf::rnd(0, 500) : (a = INT32_MIN, INT32_MAX); ui<Flow, int>(a, b); ui<Flow, long long>(a, (long long)b << vf::rnd(0, 31) < a ? a : (long long)b << vf::rnd(0, 31)); smf(a, b); }
	return vf::done();
}
#elif PART == 2
template<typename T> void uni(const char* o, T lo, T hi, u128 br, bool whole, int first, T r, int n, bool same) {
	Ev e(o); e("t", fmt(T()))("lo", fp(lo))("hi", fp(hi))("br", vf::big(br))("whole", whole)("ks", ks(n))("r", fp(r))("same", same); (void)first; e.emit();
}
template<typename E, typename T> void reals(int n, bool whole, u128 den) {
	for (int i = 0; i < n; ++i) {
		table(numbers<E>(vf::rnd(1, 6)));
		{ R::uniform_01<T> d; auto x = draw<R::uniform_01<T>, E>(d); uni<T>("u01", 0, 1, den, whole, 0, x.r[0], x.n[0], x.same); }
		T lo = T(std::ldexp((double)vf::rnd(-500, 500), vf::rnd(-8, 8))), w = T(std::ldexp((double)vf::rnd(1, 500), vf::rnd(-8, 8))), hi = lo + w;
		{ R::uniform_real_distribution<T> d(lo, hi); auto x = draw<R::uniform_real_distribution<T>, E>(d); uni<T>("real", lo, hi, den, whole, 0, x.r[0], x.n[0], x.same && d.a() == lo && d.b() == hi && d.min() == lo && d.max() == hi); }
		T p = T(vf::rnd(0, 64)) / 64; if (vf::rnd(0, 5) == 0) p = T(vf::rnd(0, 1));
		{ R::bernoulli_distribution<T> d(p); auto x = draw<R::bernoulli_distribution<T>, E>(d); Ev e("bern"); e("t", fmt(T()))("p", fp(p))("br", vf::big(den))("k", vf::big(at(0)))("n", x.n[0])("r", (int)x.r[0])("same", x.same && d.p() == p); e.emit(); }
	}
}
template<typename E, typename T, std::size_t bits> void canon(u128 r) {
	E m; T a = R::generate_canonical<T, bits>(m); E const c; auto q = R::generate_canonical<T, bits>(c);
	Ev e("canon"); e("t", fmt(T()))("bits", (int)(bits < (std::size_t)std::numeric_limits<T>::digits ? bits : std::numeric_limits<T>::digits))("rad", vf::big(r))("ks", ks(m.pos))("r", fp(a))("same", q.first == a && q.second.pos == m.pos); e.emit();
}
template<typename E> void canons(int n, u128 r) { for (int i = 0; i < n; ++i) { table(numbers<E>(60)); canon<E, double, 53>(r); canon<E, float, 24>(r); canon<E, double, 10>(r); canon<E, float, 60>(r); } }
typedef Script<std::uint32_t, 0, 0xffffffffu> G32; typedef Script<std::uint32_t, 1, 2147483646u> GP; typedef Script<std::uint64_t, 0, ~(std::uint64_t)0> G64; typedef Script<int, -5, 4> GS; typedef Script<std::uint32_t, 0, 255> G8; typedef Script<int, INT32_MIN, INT32_MAX> GI;
int main(int ac, char** av) {
	vf::init(ac, av); int n = vf::thorough() ? 400 : 40;
	reals<G32, double>(n, true, G32::br()); reals<G32, float>(n, true, G32::br()); reals<GP, double>(n, true, GP::br()); reals<G64, double>(n, true, G64::br()); reals<G64, float>(n, true, G64::br()); reals<GS, double>(n, true, GS::br()); reals<G8, float>(n, true, G8::br());
	reals<Flow, double>(n, false, (u128)1 << 53); reals<Flow, float>(n, false, (u128)1 << 53);
	n /= 2; canons<G32>(n, G32::br() + 1); canons<GP>(n, GP::br() + 1); canons<G64>(n, G64::br() + 1); canons<GS>(n, GS::br() + 1); canons<G8>(n, 256); canons<Flow>(n, (u128)1 << 53); canons<GI>(n, GI::br() + 1);
	return vf::done();
}
#elif PART == 3
typedef Script<std::uint32_t, 0, 0xffffffffu> G32;
template<typename T> vf::raw jr(T r) { return vf::raw{std::to_string((long long)r)}; }
static void norm(double mu, double sg) {
	typedef R::normal_distribution<double> D; D m(mu, sg), s; D f(mu, sg); G32 e; G32 fe; double z[4], y[4], x[4]; int n[4], nf[4]; bool same = true;
	for (int i = 0; i < 4; ++i) { if (i == 3) { m.reset(); f.reset(); } z[i] = m(e); n[i] = e.pos; G32 const ce = fe; D const cf = f; auto q = cf(ce); y[i] = q.result(); fe = q.engine(); f = q.distribution(); nf[i] = fe.pos; same = same && f == m; }
	G32 e2; for (int i = 0; i < 4; ++i) { if (i == 3) s.reset(); x[i] = s(e2); same = same && e2.pos == n[i]; }
	Ev ev("norm"); ev("ks", ks(6))("mu", fp(mu))("sg", fp(sg)); std::string zs = "[", ys = "[", xs = "["; for (int i = 0; i < 4; ++i) { const char* c = i ? "," : ""; zs += c + fp(z[i]).s; ys += c + fp(y[i]).s; xs += c + fp(x[i]).s; }
	ev("z", vf::raw{zs + "]"})("y", vf::raw{ys + "]"})("x", vf::raw{xs + "]"})("n", vf::raw{vf::js(std::vector<int>(n, n + 4))})("nf", vf::raw{vf::js(std::vector<int>(nf, nf + 4))})("same", same && m.mean() == mu && m.sigma() == sg); ev.emit();
}
int main(int ac, char** av) {
	vf::init(ac, av); bool th = vf::thorough();
	int geop[][2] = {{1, 2}, {1, 4}, {3, 4}, {7, 8}, {1, 8}, {15, 16}, {1, 16}, {255, 256}};
	for (auto& q : geop) for (int i = 0; i < (th ? 200 : 20); ++i) {
		double p = (double)q[0] / q[1]; table(numbers<G32>(2)); R::geometric_distribution<int> d(p); auto x = draw<R::geometric_distribution<int>, G32>(d);
		Ev e("geo"); e("p", fp(p))("k", vf::big(at(0)))("n", x.n[0])("r", jr(x.r[0]))("same", x.same && d.p() == p && d.min() == 0); e.emit();
	}
	for (int t = 0; t <= (th ? 20 : 12); ++t) for (int p8 = 0; p8 <= 16; ++p8) for (int i = 0; i < (th ? 12 : 2); ++i) {
		double p = p8 / 16.0; table(numbers<G32>(2)); R::binomial_distribution<int> d(t, p); auto x = draw<R::binomial_distribution<int>, G32>(d);
		Ev e("bin"); e("t", t)("p", fp(p))("k", vf::big(at(0)))("n", x.n[0])("r", jr(x.r[0]))("same", x.same && d.t() == t && d.p() == p && d.min() == 0 && d.max() == t); e.emit();
	}
	for (int a = 1; a < 80; a += th ? 1 : 4) for (int i = 0; i < (th ? 20 : 5); ++i) {
		double m = a / 8.0; table(numbers<G32>(2)); R::poisson_distribution<int> d(m); auto x = draw<R::poisson_distribution<int>, G32>(d);
		Ev e("poi"); e("a", vf::big(a))("sh", 3)("k", vf::big(at(0)))("n", x.n[0])("r", jr(x.r[0]))("same", x.same && d.mean() == m && d.min() == 0); e.emit();
	}
	// rejection: the answer stays in range and does not depend on how it is asked for
	for (int i = 0; i < (th ? 3000 : 300); ++i) {
		std::vector<u128> v = numbers<G32>(60); for (auto& k : v) if (vf::rnd(0, 3)) k = vf::rnd64() & 0xffffffffu; table(v);
		if (i % 2) { int t = vf::rnd(30, 400); double p = vf::rnd(30, 70) / 100.0; R::binomial_distribution<int> d(t, p); auto x = draw<R::binomial_distribution<int>, G32>(d); Ev e("rej"); e("fn", "bin")("hi", t)("n", x.n[0])("r", jr(x.r[0]))("same", x.same); if (x.n[0] < 60) e.emit(); }
		else { double m = vf::rnd(100, 2000) / 10.0; R::poisson_distribution<int> d(m); auto x = draw<R::poisson_distribution<int>, G32>(d); Ev e("rej"); e("fn", "poi")("hi", 1000000)("n", x.n[0])("r", jr(x.r[0]))("same", x.same); if (x.n[0] < 60) e.emit(); }
	}
	for (int i = 0; i < (th ? 600 : 60); ++i) { std::vector<u128> v = numbers<G32>(6); if (i % 7 == 0) v[0] = v[2] = (u128)(i % 8) << 29; table(v); norm(vf::rnd(-20, 20) / 4.0, i % 9 == 0 ? 0 : vf::rnd(1, 20) / 4.0); }
	return vf::done();
}
#else
typedef Script<std::uint32_t, 0, 0xffffffffu> G32;
static vf::raw nums(std::vector<double> const& v) { std::string r = "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += std::to_string((long long)(v[i] * 16)); } return vf::raw{r + "]"}; }
// a text with parameters: read, refused or taken, written again; reading into a distribution that has others
template<typename D> void rd(const char* fn, std::vector<double> const& a, D const& other, std::vector<double> (*get)(D const&)) {
	std::ostringstream w; for (std::size_t i = 0; i < a.size(); ++i) { if (i) w << " "; w << a[i]; }
	typename D::param_type p = other.param(); std::istringstream in(w.str()); in >> p; bool good = !in.fail(); D d(p);
	std::ostringstream o; o << p; std::ostringstream ow; std::vector<double> g = get(d); for (std::size_t i = 0; i < g.size(); ++i) { if (i) ow << " "; ow << g[i]; }
	D y(other); y.param(p); D z; z.param(p); bool eq = d == D(p) && y == d && z == d && d.param() == p && (d != other) == (p != other.param()) && (d == other) == (p == other.param());
	std::ostringstream od; od.precision(17); od << d; D back(other); std::istringstream id(od.str()); id >> back;
	Ev e("rd"); e("fn", fn)("a", nums(a))("was", nums(get(other)))("good", good)("now", nums(g))("txt", o.str() == ow.str())("same", eq && !id.fail() && back == d); e.emit();
}
template<typename D> std::vector<double> gi(D const& d) { return {(double)d.a(), (double)d.b()}; }
template<typename D> std::vector<double> gp(D const& d) { return {(double)d.p()}; }
template<typename D> std::vector<double> gm(D const& d) { return {(double)d.mean()}; }
template<typename D> std::vector<double> gn(D const& d) { return {(double)d.mean(), (double)d.sigma()}; }
template<typename D> std::vector<double> gb(D const& d) { return {(double)d.t(), (double)d.p()}; }
// one sequence, asked for in every way
template<typename E, typename D> void seq(const char* fn, E const& e0, D const& d0) {
	typedef typename D::result_type T; const int N = 6; std::vector<std::vector<T> > v; std::vector<T> x;
	{ E e(e0); D d(d0); for (int i = 0; i < N; ++i) x.push_back(d(e)); v.push_back(x); x.clear(); }
	{ auto q = d0(e0); for (int i = 0; i < N; ++i) { x.push_back(q.result()); q = q.next()(); } v.push_back(x); x.clear(); }
	{ auto q = d0(e0); for (int i = 0; i < N; ++i) { x.push_back(sprout::generators::generated_value(q)); q = sprout::generators::next_generator(q)(); } v.push_back(x); x.clear(); }
	{ auto g = R::combine_copy(e0, d0); auto q = g(); for (int i = 0; i < N; ++i) { x.push_back(q); q = q(); } v.push_back(x); x.clear(); }
	{ auto g = R::ccombine(e0, d0); auto q = g(); for (int i = 0; i < N; ++i) { x.push_back(q.result()); q = q.next_value(); } v.push_back(x); x.clear(); }
	{ E e(e0); D d(d0); auto g = R::combine(e, d); for (int i = 0; i < N; ++i) x.push_back(g()); v.push_back(x); x.clear(); }
	{ for (auto it = R::begin(e0, d0, N), l = R::end(e0, d0); it != l; ++it) x.push_back(*it); v.push_back(x); x.clear(); }
	{ for (auto const& y : R::make_range(e0, d0, N)) x.push_back(y); v.push_back(x); x.clear(); }
	{ E e(e0); D d(d0); auto a = R::generate_array<N>(e, d); x.assign(a.begin(), a.end()); v.push_back(x); x.clear(); }
	{ auto const g = R::combine_copy(e0, d0); auto a = R::generate_array<N>(g); x.assign(a.first.begin(), a.first.end()); v.push_back(x); x.clear(); }
	std::vector<int> same; for (auto const& y : v) same.push_back(y == v[0]); bool rng = true; for (auto const& y : v[0]) rng = rng && !(y < d0.min()) && !(d0.max() < y);
	Ev ev("seq"); ev("fn", fn)("same", vf::raw{vf::js(same)})("rng", rng); ev.emit();
}
template<typename E> void raw(const char* fn, E const& e0) {
	typedef typename E::result_type T; const int N = 5; std::vector<std::vector<T> > v; std::vector<T> x;
	{ E e(e0); for (int i = 0; i < N; ++i) x.push_back(e()); v.push_back(x); x.clear(); }
	{ auto q = e0(); for (int i = 0; i < N; ++i) { x.push_back(q.result()); q = q.next_value(); } v.push_back(x); x.clear(); }
	{ for (auto it = R::begin(e0, N), l = R::end(e0); it != l; ++it) x.push_back(*it); v.push_back(x); x.clear(); }
	{ for (auto const& y : R::make_range(e0, N)) x.push_back(y); v.push_back(x); x.clear(); }
	{ E e(e0); auto a = R::generate_array<N>(e); x.assign(a.begin(), a.end()); v.push_back(x); x.clear(); }
	{ auto a = R::generate_array<N>(e0); x.assign(a.first.begin(), a.first.end()); v.push_back(x); E e(e0); for (int i = 0; i < N; ++i) e(); std::vector<int> s; for (auto const& y : v) s.push_back(y == v[0]); s.push_back(a.second == e); Ev ev("seq"); ev("fn", fn)("same", vf::raw{vf::js(s)})("rng", true); ev.emit(); }
}
template<typename E> void seqs(E const& e) {
	seq("ui", e, R::uniform_int_distribution<int>(vf::rnd(-50, 0), vf::rnd(0, 50))); seq("ull", e, R::uniform_int_distribution<unsigned long long>(5, ~0ull - 3)); seq("sm", e, R::uniform_smallint<int>(vf::rnd(-5, 0), vf::rnd(0, 9))); seq("u01", e, R::uniform_01<double>()); seq("real", e, R::uniform_real_distribution<double>(-2.5, 3));
	seq("bern", e, R::bernoulli_distribution<double>(vf::rnd(0, 8) / 8.0)); seq("geo", e, R::geometric_distribution<int>(0.25)); seq("bin", e, R::binomial_distribution<int>(vf::rnd(0, 90), 0.5)); seq("poi", e, R::poisson_distribution<int>(vf::rnd(1, 60) / 2.0)); seq("norm", e, R::normal_distribution<double>(1, 2)); raw("raw", e);
}
int main(int ac, char** av) {
	vf::init(ac, av); bool th = vf::thorough();
	for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) {
		rd<R::uniform_int_distribution<int> >("ui", {(double)a, (double)b}, R::uniform_int_distribution<int>(-1, 2), gi); rd<R::uniform_smallint<int> >("ui", {(double)a, (double)b}, R::uniform_smallint<int>(-1, 2), gi);
		rd<R::uniform_real_distribution<double> >("ui", {a / 4.0, b / 2.0}, R::uniform_real_distribution<double>(-1, 2.5), gi); rd<R::normal_distribution<double> >("norm", {a / 4.0, b / 2.0}, R::normal_distribution<double>(-1, 2.5), gn);
		rd<R::binomial_distribution<int> >("bin", {a + 1.0, b / 4.0 + 0.25}, R::binomial_distribution<int>(7, 0.75), gb);
	}
	for (int a = -4; a <= 24; ++a) { rd<R::bernoulli_distribution<double> >("bern", {a / 16.0}, R::bernoulli_distribution<double>(0.75), gp); rd<R::geometric_distribution<int> >("geo", {a / 16.0}, R::geometric_distribution<int>(0.75), gp); rd<R::poisson_distribution<int> >("poi", {a / 2.0}, R::poisson_distribution<int>(0.75), gm); }
	for (int i = 0; i < (th ? 200 : 15); ++i) { std::uint32_t s = (std::uint32_t)vf::rnd64() % 1000000 + 1; seqs(R::minstd_rand0(s)); seqs(R::minstd_rand(s)); seqs(R::mt19937(s)); seqs(R::taus88(s)); seqs(R::rand48(s)); seqs(R::kreutzer1986(s)); }
	return vf::done();
}
#endif
