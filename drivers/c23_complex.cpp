// C23: complex numbers and quaternions.
#include "vf.hpp"
#include <sprout/complex.hpp>
#include <sprout/math/quaternion.hpp>
#include <sprout/container.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sprout/functional/hash.hpp>
#include <complex>
#include <sstream>
#include <cmath>
#ifndef PART
#define PART 1
#endif
using vf::Ev; typedef std::vector<int> V; typedef std::vector<V> VV;
static const int S = 64;	// components are reported in 64ths
template<typename T> int sc(T x) { T y = x * T(S); return std::is_integral<T>::value ? int(y) : (y == std::floor(y) && std::fabs(double(y)) < 2e9) ? int(y) : 999999999; }
template<typename T> V comp(T x, typename std::enable_if<std::is_arithmetic<T>::value>::type* = 0) { return V{sc(x)}; }
template<typename T> V comp(sprout::complex<T> const& z) { return V{sc(z.real()), sc(z.imag())}; }
template<typename T> V comp(std::complex<T> const& z) { return V{sc(z.real()), sc(z.imag())}; }
template<typename T> V comp(sprout::math::quaternion<T> const& q) { return V{sc(q.R_component_1()), sc(q.R_component_2()), sc(q.R_component_3()), sc(q.R_component_4())}; }
template<typename Z> VV seen(Z& z) {	// every way of looking at the components
	Z const& c = z; VV r; V a;
#define L(E) a.clear(); E; r.push_back(a);
	L(for (auto i = z.begin(); i != z.end(); ++i) a.push_back(sc(*i))) L(for (auto i = c.begin(); i != c.end(); ++i) a.push_back(sc(*i))) L(for (auto i = c.cbegin(); i != c.cend(); ++i) a.push_back(sc(*i)))
	L(for (auto i = z.rbegin(); i != z.rend(); ++i) a.insert(a.begin(), sc(*i))) L(for (auto i = c.rbegin(); i != c.rend(); ++i) a.insert(a.begin(), sc(*i))) L(for (auto i = c.crbegin(); i != c.crend(); ++i) a.insert(a.begin(), sc(*i)))
	L(for (std::size_t i = 0; i < z.size(); ++i) a.push_back(sc(z[i]))) L(for (std::size_t i = 0; i < c.size(); ++i) a.push_back(sc(c[i]))) L(for (std::size_t i = 0; i < c.max_size(); ++i) a.push_back(sc(c.at(i)))) L(for (std::size_t i = 0; i < z.size(); ++i) a.push_back(sc(z.at(i))))
	L(for (std::size_t i = 0; i < c.size(); ++i) a.push_back(sc(c.data()[i]))) L(for (std::size_t i = 0; i < z.size(); ++i) a.push_back(sc(z.c_array()[i]))) L(for (auto i = sprout::begin(c); i != sprout::end(c); ++i) a.push_back(sc(*i)))
	L(a.push_back(sc(z.front())); for (std::size_t i = 1; i + 1 < c.size(); ++i) a.push_back(sc(c[i])); a.push_back(sc(z.back()))) L(a.push_back(sc(c.front())); for (std::size_t i = 1; i + 1 < c.size(); ++i) a.push_back(sc(c[i])); a.push_back(sc(c.back())))
	return r;
}
#define EV(O, F, A, B, ...) { Ev e(O); e("f", F)("a", comp(A))("b", comp(B))("r", comp(__VA_ARGS__)); e.emit(); }
#define CMP(A, B) { Ev e("cmp"); e("a", comp(A))("b", comp(B))("eq", (A) == (B))("ne", (A) != (B)); e.emit(); }
#define UN(F, A, ...) { Ev e("un"); e("f", F)("a", comp(A))("r", comp(__VA_ARGS__)); e.emit(); }
#define ALGEBRA(A, B) EV("bin", "+", A, B, (A) + (B)) EV("bin", "-", A, B, (A) - (B)) EV("bin", "*", A, B, (A) * (B)) CMP(A, B)
#define COMPOUND(A, B) { auto x = A; auto& y = (x += B); EV("bin", "+", A, B, x) if (&x != &y) throw 1; x = A; x -= B; EV("bin", "-", A, B, x) x = A; x *= B; EV("bin", "*", A, B, x) x = A; x = B; UN("set", B, x) }
template<typename W> bool throws(W const& w) { try { w.at(w.size()); } catch (std::out_of_range const&) { return true; } return false; }
static bool pow2(int n) { return n > 0 && (n & (n - 1)) == 0 && n <= 64; }
static int nrm(V const& a) { int n = 0; for (int x : a) { if (x % S) return 0; n += (x / S) * (x / S); } return n; }
template<typename T> T c1() { return T(vf::rnd(-9, 9)); }
template<typename T> T unitish() { return T(vf::rnd(-2, 2)); }

#if PART <= 2
template<typename T> void stream(sprout::complex<T> const& z) {
	std::stringstream s; s << z; V tx; for (char ch : s.str()) tx.push_back(ch); sprout::complex<T> b(T(7), T(8)); s >> b; { Ev e("out"); e("a", comp(z))("tx", tx)("ok", !s.fail())("r", comp(b)); e.emit(); }
	const char* fm[] = {"%d", "(%d)", "(%d,%d)", " ( %d , %d ) ", "(%d;%d)", "(%d,%d", "(%d,%d]"}; int k = vf::rnd(0, 6); char buf[80]; std::snprintf(buf, sizeof buf, fm[k], int(z.real()), int(z.imag()));
	std::istringstream i(buf); sprout::complex<T> w(T(7), T(8)); i >> w; V t; for (const char* p = buf; *p; ++p) t.push_back(*p); Ev e("in"); e("tx", t)("n", 2)("ok", !i.fail())("r", comp(w)); e.emit();
}
template<typename T> void cx(sprout::complex<T> a, sprout::complex<T> b, T s, bool fl) {
	typedef sprout::complex<T> C; C const ca = a;
	ALGEBRA(a, b) ALGEBRA(a, s) ALGEBRA(s, a) COMPOUND(a, b) COMPOUND(a, s) EV("bin", "+", a, a, a + a) EV("bin", "*", a, a, a * a)
	{ C x = a; x += x; EV("bin", "+", a, a, x) x = a; x *= x; EV("bin", "*", a, a, x) x = a; x -= x; EV("bin", "-", a, a, x) }
	UN("+", a, +a) UN("-", a, -a) UN("conj", a, conj(a)) UN("perp", a, perp(a)) UN("real", a, sprout::real(ca)) UN("imag", a, sprout::imag(ca)) UN("real", a, sprout::real(a)) UN("imag", a, sprout::imag(a))
	{ C x; UN("zero", a, x) C y(s); UN("copy", s, y) x.real(s); UN("copy", s, x) x.imag(s); C w(s, s); CMP(w, x) x = a; x.real() = s; x.imag() = T(1); C v(s, T(1)); CMP(v, x) C u(a); CMP(a, u) }
	{ Ev e("seen"); e("a", comp(a))("r", seen(a))("thr", throws(a))("get", V{sc(sprout::tuples::get<0>(a)), sc(sprout::tuples::get<1>(a))})("hsh", sprout::to_hash(a) == sprout::to_hash(C(a)))("siz", V{int(a.size()), int(C::static_size), int(sprout::tuples::tuple_size<C>::value), a.empty()}); e.emit(); }
	{ std::complex<T> sa = std::complex<T>(a); UN("copy", a, sa) C back(sa); UN("copy", a, back) sprout::complex<double> wide(a); UN("copy", a, wide) wide = a; UN("copy", a, wide) wide += b; EV("bin", "+", a, b, wide) wide = a; wide *= b; EV("bin", "*", a, b, wide) wide = a; wide -= b; EV("bin", "-", a, b, wide) }
	if (fl) {
		UN("norm", a, sprout::norm(a)) UN("copy", a, sprout::proj(a)) UN("conj", s, sprout::conj(s)) UN("perp", s, sprout::perp(s)) UN("norm", s, sprout::norm(s)) UN("real", s, sprout::real(s)) UN("imag", s, sprout::imag(s)) UN("copy", s, sprout::proj(s))
		C q(a.real() / T(4), a.imag() / T(4)); UN("ceil", q, sprout::ceil(q)) UN("floor", q, sprout::floor(q)) UN("trunc", q, sprout::trunc(q)) UN("round", q, sprout::round(q)) stream(a);
	}
	if (fl && pow2(nrm(comp(b)))) { EV("div", "/", a, b, a / b) EV("div", "/", s, b, s / b) C x = a; x /= b; EV("div", "/", a, b, x) C y = b; y /= y; EV("div", "/", b, b, y) }
	if (fl && s != T(0) && pow2(nrm(comp(s)))) { EV("div", "/", a, s, a / s) C x = a; x /= s; EV("div", "/", a, s, x) }
}
// integer components: division exact by construction
static void cint() {
	typedef sprout::complex<int> C; C a(vf::rnd(-9, 9), vf::rnd(-9, 9)), b(vf::rnd(-9, 9), vf::rnd(-9, 9)), p = a * b; int s = vf::rnd(-9, 9); cx<int>(a, b, s, false);
	if (b != 0) { EV("div", "/", p, b, p / b) C x = p; x /= b; EV("div", "/", p, b, x) } if (s) { EV("div", "/", a * s, s, a * s / s) }
}
template<typename T> void chist() {
	typedef sprout::complex<T> C; C q[2]; vf::begin_history();
	for (int k = 0; k < 150; ++k) {
		int d = vf::rnd(0, 1), i = vf::rnd(0, 1), f = vf::rnd(0, 13); C w(c1<T>(), c1<T>()); T s = c1<T>(); const char* n = ""; V wv = comp(w);
		for (int j = 0; j < 2; ++j) if (std::fabs(double(q[j].real())) > 3000 || std::fabs(double(q[j].imag())) > 3000 || q[j].real() != std::floor(q[j].real()) || q[j].imag() != std::floor(q[j].imag())) { d = j; f = 12; break; }
		bool sm = std::fabs(double(q[i].real())) < 40 && std::fabs(double(q[i].imag())) < 40;
		switch (f) {
		case 0: n = "+w"; q[d] += w; break; case 1: n = "-w"; q[d] -= w; break; case 2: n = "*w"; w = C(unitish<T>(), unitish<T>()); wv = comp(w); q[d] *= w; break;
		case 3: n = "/w"; w = C(unitish<T>(), unitish<T>()); if (!pow2(nrm(comp(w)))) w = C(T(1), T(-1)); wv = comp(w); q[d] /= w; break;
		case 4: n = "+w"; q[d] += s; wv = comp(s); break; case 5: n = "-w"; q[d] -= s; wv = comp(s); break; case 6: n = "*w"; s = unitish<T>(); q[d] *= s; wv = comp(s); break;
		case 7: n = "+q"; q[d] += q[i]; break; case 8: n = "-q"; q[d] -= q[i]; break; case 9: if (sm) { n = "*q"; q[d] *= q[i]; } else { n = "=q"; q[d] = q[i]; } break;
		case 10: n = "-1"; q[d] = -q[i]; break; case 11: n = "conj"; q[d] = conj(q[i]); break; case 12: n = "=w"; q[d] = w; break; case 13: n = "=w"; q[d] = s; wv = comp(s); break;
		}
		Ev e("step"); e("f", n)("d", d + 1)("i", i + 1)("w", wv)("after", VV{comp(q[0]), comp(q[1])}); e.emit();
	}
	vf::end_history();
}
#endif
#if PART == 1
template<typename T> void all() {
	typedef sprout::complex<T> C; int m = vf::thorough() ? 3 : 2;
	for (int a = -m; a <= m; ++a) for (int b = -m; b <= m; ++b) for (int c = -m; c <= m; ++c) for (int d = -m; d <= m; ++d) if (vf::thorough() || (a * 7 + b * 3 + c * 5 + d * 11 + 500) % 4 == 0) cx<T>(C(T(a), T(b)), C(T(c), T(d)), T((a + c) % 3), true);
	for (int k = 0; k < (vf::thorough() ? 600 : 60); ++k) cx<T>(C(c1<T>() * T(37) / T(8), c1<T>() / T(4)), C(c1<T>(), c1<T>() / T(2)), c1<T>(), true);
}
int main(int ac, char** av) {
	vf::init(ac, av); using namespace sprout::literals;
	all<double>(); all<float>(); all<long double>(); for (int k = 0; k < (vf::thorough() ? 800 : 100); ++k) cint();
	UN("lit", 3.0, 3.0_i) UN("lit", 2.5f, 2.5_if) UN("lit", 0.25L, 0.25_il) UN("lit", 3.0, 3.0_iL) UN("lit", 2.5f, 2.5_iF)
	for (int re = -60; re <= 60; ++re) for (int im = -60; im <= 60; ++im) { int n = re * re + im * im, r = int(std::sqrt(double(n)) + .5); if (r * r == n) { Ev e("abs"); e("n", n)("r", V{sc(sprout::abs(sprout::complex<double>(re, im))), sc(sprout::abs(sprout::complex<float>(re, im)))}); e.emit(); } }
	return vf::done();
}
#elif PART == 2
int main(int ac, char** av) { vf::init(ac, av); for (int h = 0; h < (vf::thorough() ? 300 : 25); ++h) { chist<double>(); chist<float>(); chist<long double>(); } return vf::done(); }
#else
template<typename T> using Qt = sprout::math::quaternion<T>;
template<typename T> void qstream(Qt<T> const& z) {
	std::stringstream s; s << z; V tx; for (char ch : s.str()) tx.push_back(ch); Qt<T> b(T(7), T(8)); s >> b; { Ev e("out"); e("a", comp(z))("tx", tx)("ok", !s.fail())("r", comp(b)); e.emit(); }
	const char* fm[] = {"%d", "(%d)", "(%d,%d)", "(%d,%d,%d)", "(%d,%d,%d,%d)", "((%d,%d))", "((%d,%d),(%d,%d))", "((%d,%d),%d)", "(%d,(%d,%d))", " ( %d , %d , %d ) ", "(%d;%d)", "(%d,%d", "((%d),(%d))", "(%d,%d,%d,%d,", "((%d,%d),(%d,%d)"};
	int k = vf::rnd(0, 14); char buf[120]; std::snprintf(buf, sizeof buf, fm[k], int(z.R_component_1()), int(z.R_component_2()), int(z.R_component_3()), int(z.R_component_4()));
	std::istringstream i(buf); Qt<T> w(T(7), T(8)); i >> w; V t; for (const char* p = buf; *p; ++p) t.push_back(*p); Ev e("in"); e("tx", t)("n", 4)("ok", !i.fail())("r", comp(w)); e.emit();
}
template<typename T> int msup(Qt<T> const& q) { V v = comp(q); int m = 0; for (int x : v) m = std::max(m, std::abs(x) / S); return m; }
template<typename T> void qf(Qt<T> const& a, Qt<T> const& b, sprout::complex<T> const& c, T s, std::true_type) {
	typedef Qt<T> Q; qstream(a); UN("l1", a, sprout::math::l1(a)) UN("sup", a, sprout::math::sup(a))
		if (pow2(nrm(comp(b))) && pow2(msup(b))) { EV("div", "/", a, b, a / b) EV("div", "/", s, b, s / b) EV("div", "/", c, b, c / b) Q x = a; x /= b; EV("div", "/", a, b, x) x = b; x /= x; EV("div", "/", b, b, x) typename std::conditional<std::is_same<T, double>::value, Qt<long double>, Qt<double> >::type w(a); w /= b; EV("div", "/", a, b, w) }
		if (pow2(nrm(comp(c))) && pow2(msup(Q(c)))) { EV("div", "/", a, c, a / c) Q x = a; x /= c; EV("div", "/", a, c, x) }
		if (pow2(nrm(comp(s)))) { EV("div", "/", a, s, a / s) Q x = a; x /= s; EV("div", "/", a, s, x) }
	{ typename std::conditional<std::is_same<T, double>::value, Qt<float>, Qt<double> >::type wide(a); UN("copy", a, wide) wide = a; UN("copy", a, wide) wide += b; EV("bin", "+", a, b, wide) wide = a; wide *= b; EV("bin", "*", a, b, wide) wide = a; wide -= b; EV("bin", "-", a, b, wide) }
}
template<typename T> void qf(Qt<T> const& a, Qt<T> const& b, sprout::complex<T> const& c, T s, std::false_type) {
	typedef Qt<T> Q;
	if (s) { Q p = a * s; EV("div", "/", p, s, p / s) p /= s; Q p2 = a * s; EV("div", "/", p2, s, p) Q m = a * b; if (norm(b) != 0) { Q x = m; x /= b; EV("div", "/", m, b, x) } Q n = a * c; if (c != sprout::complex<T>()) { Q x = n; x /= c; EV("div", "/", n, c, x) } }
}
template<typename T> void q1(Qt<T> a, Qt<T> b, sprout::complex<T> c, T s) {
	typedef Qt<T> Q; Q const ca = a;
	ALGEBRA(a, b) ALGEBRA(a, c) ALGEBRA(c, a) ALGEBRA(a, s) ALGEBRA(s, a) COMPOUND(a, b) COMPOUND(a, c) COMPOUND(a, s) EV("bin", "*", a, a, a * a)
	{ Q x = a; x += x; EV("bin", "+", a, a, x) x = a; x *= x; EV("bin", "*", a, a, x) x = a; x -= x; EV("bin", "-", a, a, x) }
	UN("+", a, +a) UN("-", a, -a) UN("conj", a, conj(a)) UN("real", a, real(a)) UN("real", a, a.real()) UN("unreal", a, unreal(a)) UN("unreal", a, a.unreal()) UN("norm", a, norm(a)) UN("lo", a, a.C_component_1()) UN("hi", a, a.C_component_2())
	{ Q x; UN("zero", a, x) Q y(s); UN("copy", s, y) Q z(c); UN("copy", c, z) Q w(a.C_component_1(), a.C_component_2()); CMP(a, w) Q u(a); CMP(a, u) Q t(s, s, T(1)); Q v(s, s, T(1), T(0)); CMP(t, v) }
	{ Ev e("seen"); e("a", comp(a))("r", seen(a))("thr", throws(a))("get", V{sc(sprout::tuples::get<0>(a)), sc(sprout::tuples::get<1>(a)), sc(sprout::tuples::get<2>(a)), sc(sprout::tuples::get<3>(a))})("hsh", sprout::to_hash(a) == sprout::to_hash(Q(a)))("siz", V{int(a.size()), int(Q::static_size), int(sprout::tuples::tuple_size<Q>::value), a.empty()}); e.emit(); }
	qf(a, b, c, s, std::integral_constant<bool, std::is_floating_point<T>::value>());
}
template<typename T> Qt<T> rq(int m) { return Qt<T>(T(vf::rnd(-m, m)), T(vf::rnd(-m, m)), T(vf::rnd(-m, m)), T(vf::rnd(-m, m))); }
template<typename T> Qt<T> unit() { int k = vf::rnd(0, 2), v = 1 << vf::rnd(0, 1); T t[4] = {T(0), T(0), T(0), T(0)}; if (k == 2) for (T& x : t) x = T(vf::rnd(0, 1) ? v : -v); else { int i = vf::rnd(0, 3); t[i] = T(vf::rnd(0, 1) ? v : -v); if (k) t[(i + vf::rnd(1, 3)) % 4] = T(vf::rnd(0, 1) ? v : -v); } return Qt<T>(t[0], t[1], t[2], t[3]); }
#if PART == 3
template<typename T> void all() {
	typedef sprout::complex<T> C;
	for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) { T x[4] = {T(0), T(0), T(0), T(0)}, y[4] = {T(0), T(0), T(0), T(0)}; x[a] = T(1); y[b] = T(1); q1<T>(Qt<T>(x[0], x[1], x[2], x[3]), Qt<T>(y[0], y[1], y[2], y[3]), b < 2 ? C(y[0], y[1]) : C(y[2], y[3]), T(1)); }
	for (int k = 0; k < (vf::thorough() ? 1500 : 90); ++k) { Qt<T> u = unit<T>(); q1<T>(rq<T>(k % 2 ? 3 : 9), k % 3 ? u : rq<T>(5), k % 2 ? C(c1<T>(), c1<T>()) : u.C_component_1(), T(vf::rnd(-4, 4))); }
}
int main(int ac, char** av) {
	vf::init(ac, av); using namespace sprout::literals;
	all<double>(); all<float>(); all<long double>(); all<int>();
	UN("lj", 3.0, 3.0_j) UN("lj", 2.5f, 2.5_jf) UN("lj", 0.25L, 0.25_jl) UN("lk", 3.0, 3.0_k) UN("lk", 2.5f, 2.5_kf) UN("lk", 0.25L, 0.25_kl)
	return vf::done();
}
#else
template<typename T> void qhist() {
	typedef Qt<T> Q; typedef sprout::complex<T> C; Q q[2]; vf::begin_history();
	for (int k = 0; k < 120; ++k) {
		int d = vf::rnd(0, 1), i = vf::rnd(0, 1), f = vf::rnd(0, 17); Q w = rq<T>(6); C c(unitish<T>(), unitish<T>()); T s = c1<T>(); const char* n = ""; V wv = comp(w); bool sm = msup(q[i]) < 30;
		for (int j = 0; j < 2; ++j) for (int l = 0; l < 4; ++l) if (std::fabs(double(q[j][l])) > 2000 || q[j][l] != std::floor(q[j][l])) { d = j; f = 12; }
		switch (f) {
		case 0: n = "+w"; q[d] += w; break; case 1: n = "-w"; q[d] -= w; break; case 2: n = "*w"; w = rq<T>(2); wv = comp(w); q[d] *= w; break;
		case 3: n = "/w"; w = unit<T>(); wv = comp(w); q[d] /= w; break;
		case 4: n = "+w"; q[d] += s; wv = comp(s); break; case 5: n = "-w"; q[d] -= s; wv = comp(s); break; case 6: n = "*w"; s = unitish<T>(); q[d] *= s; wv = comp(s); break;
		case 7: n = "+q"; q[d] += q[i]; break; case 8: n = "-q"; q[d] -= q[i]; break; case 9: if (sm) { n = "*q"; q[d] *= q[i]; } else { n = "=q"; q[d] = q[i]; } break;
		case 10: n = "-1"; q[d] = -q[i]; break; case 11: n = "conj"; q[d] = conj(q[i]); break; case 12: n = "=w"; q[d] = w; break; case 13: n = "=w"; q[d] = s; wv = comp(s); break;
		case 14: n = "+w"; q[d] += c; wv = comp(c); break; case 15: n = "-w"; q[d] -= c; wv = comp(c); break; case 16: n = "*w"; q[d] *= c; wv = comp(c); break; case 17: n = "=w"; q[d] = c; wv = comp(c); break;
		}
		Ev e("step"); e("f", n)("d", d + 1)("i", i + 1)("w", wv)("after", VV{comp(q[0]), comp(q[1])}); e.emit();
	}
	vf::end_history();
}
int main(int ac, char** av) { vf::init(ac, av); for (int h = 0; h < (vf::thorough() ? 300 : 25); ++h) { qhist<double>(); qhist<float>(); qhist<long double>(); } return vf::done(); }
#endif
#endif
