// C22: rational numbers, gcd and lcm.
#include "vf.hpp"
#include <sprout/rational.hpp>
#include <sprout/math/gcd.hpp>
#include <sprout/math/lcm.hpp>
#include <sprout/cstdlib.hpp>
#include <sprout/container.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sstream>
#include <climits>
#include <limits>
#include <unordered_set>
using vf::Ev; using sprout::rational; typedef std::vector<int> V;
#ifndef PART
#define PART 1
#endif
template<typename T> V nd(rational<T> const& r) { return V{int(r.numerator()), int(r.denominator())}; }
template<typename T> vf::raw bnd(rational<T> const& r) { return vf::raw{"[" + vf::bigz(r.numerator()).s + "," + vf::bigz(r.denominator()).s + "]"}; }
#if PART == 1 || PART == 2
// histories of operations on three registers
template<typename T> struct Regs {
	rational<T> q[3]; int lim, lo;
	Regs(int lim, int lo) : lim(lim), lo(lo) {}
	int num() { return vf::rnd(0, 3) ? vf::rnd(lo < 0 ? -6 : 0, 6) : vf::rnd(lo, lim); }
	bool big(int i) const { return q[i].numerator() > lim || (std::numeric_limits<T>::is_signed && q[i].numerator() < T(-lim)) || q[i].denominator() > lim; }
	void step() {
		int i = vf::rnd(0, 2), j = vf::rnd(0, 2), d = vf::rnd(0, 2), f = vf::rnd(0, 28); T n = T(num()), m = T(num()); bool thrown = false; const char* nm = "";
		for (int k = 0; k < 3; ++k) if (big(k)) { d = k; f = 0; if (m == T(0)) m = T(1); break; }
		bool uns = lo >= 0; typedef rational<T> R; R cp;
		if (uns) {	// only non-negative results
			if ((f == 6 || f == 14) && q[i] < q[j]) std::swap(i, j);
			if (f == 14 && q[d] < q[i]) f = 13;
			if ((f == 10 || f == 18 || f == 21 || f == 22 || f == 26)) f = 2;
			if (f == 23 || f == 24) f -= 4;
		}
		try {
			switch (f) {
			case 0: nm = "set"; q[d] = R(n, m); break;
			case 1: nm = "int"; q[d] = n; break;
			case 2: nm = "copy"; q[d] = q[i]; break;
			case 3: nm = "assign"; q[d].assign(n, m); break;
			case 4: nm = "conv"; { R x(n); q[d] = x; } break;
			case 5: nm = "+"; q[d] = q[i] + q[j]; break; case 6: nm = "-"; q[d] = q[i] - q[j]; break; case 7: nm = "*"; q[d] = q[i] * q[j]; break; case 8: nm = "/"; q[d] = q[i] / q[j]; break;
			case 9: nm = "+n"; q[d] = q[i] + n; break; case 10: nm = "-n"; q[d] = q[i] - n; break; case 11: nm = "*n"; q[d] = q[i] * n; break; case 12: nm = "/n"; q[d] = q[i] / n; break;
			case 13: nm = "+="; q[d] += q[i]; break; case 14: nm = "-="; q[d] -= q[i]; break; case 15: nm = "*="; q[d] *= q[i]; break; case 16: nm = "/="; q[d] /= q[i]; break;
			case 17: nm = "+=n"; q[d] += n; break; case 18: nm = "-=n"; q[d] -= n; break; case 19: nm = "*=n"; q[d] *= n; break; case 20: nm = "/=n"; q[d] /= n; break;
			case 21: nm = "neg"; q[d] = -q[i]; break;
			case 22: nm = "n-"; q[d] = n - q[j]; break;
			case 23: nm = "--"; if (vf::rnd(0, 1)) --q[d]; else { cp = q[d]--; nm = "x--"; } break;
			case 24: nm = "abs"; q[d] = abs(q[i]); break;
			case 25: nm = "++"; if (vf::rnd(0, 1)) ++q[d]; else { cp = q[d]++; nm = "x++"; } break;
			case 26: nm = "n+"; q[d] = n + q[j]; break; case 27: nm = "n*"; q[d] = n * q[j]; break; case 28: nm = "n/"; q[d] = n / q[j]; break;
			}
		} catch (sprout::bad_rational const&) { thrown = true; }
		Ev e("step"); e("f", nm)("i", i + 1)("j", j + 1)("d", d + 1)("n", int(n))("m", int(m))("t", thrown)("cp", nd(cp))("after", std::vector<V>{nd(q[0]), nd(q[1]), nd(q[2])}); e.emit();
		// what can be seen of a pair
		if (big(d)) return;
		int a = vf::rnd(0, 2), b = vf::rnd(0, 2); R const& x = q[a]; R const& y = q[b]; int k = vf::rnd(0, 2); if (k) n = T(x.numerator() / x.denominator() + (k == 2 ? T(vf::rnd(0, 1)) : T(0)));
		Ev c("look"); c("a", a + 1)("b", b + 1)("n", int(n));
		c("rel", V{x < y, x > y, x <= y, x >= y, x == y, x != y})("reln", V{x < n, x > n, x <= n, x >= n, x == n, x != n})("nrel", V{n < x, n > x, n <= x, n >= x, n == x, n != x});
		c("not", !x)("b_", x ? true : false)("pos", nd(+x))("get", V{int(sprout::tuples::get<0>(x)), int(sprout::tuples::get<1>(x))})("it", V{int(*sprout::begin(x)), int(*sprout::next(sprout::begin(x))), int(sprout::size(x))});
		c("cast", int(sprout::rational_cast<long>(x)))("dbl", int(sprout::rational_cast<double>(x) * double(x.denominator()) + (x < T(0) ? -0.5 : 0.5)))("h", sprout::to_hash(x) == sprout::to_hash(y))("sh", std::hash<R>()(x) == std::hash<R>()(y)); c.emit();
		if (sizeof(T) > 1 && vf::rnd(0, 3) == 0) {
			std::stringstream s; s << x; R z; s >> z; V tx; for (char ch : s.str()) tx.push_back(ch); Ev t("text"); t("a", a + 1)("tx", tx)("ok", !s.fail())("r", nd(z)); t.emit();
		}
	}
};
template<typename T> void hist(int lim, int lo) {
	for (int h = 0; h < (vf::thorough() ? 150 : 12); ++h) { vf::begin_history(); Regs<T> r(lim, lo); for (int k = 0; k < 120; ++k) r.step(); vf::end_history(); }
}
int main(int ac, char** av) {
	vf::init(ac, av);
#if PART == 1
	hist<int>(10000, -10000); hist<long>(10000, -10000); hist<int>(60, -60);
#else
	hist<long long>(5000, -5000); hist<short>(120, -120); hist<signed char>(7, -7); hist<unsigned>(9000, 0);
#endif
	return vf::done();
}
#else
template<typename T> void gl(T a, T b) {
	sprout::math::gcd_evaluator<T> g1; sprout::math::gcd_evaluator<> g2; sprout::math::lcm_evaluator<T> l1; sprout::math::lcm_evaluator<> l2;
	Ev e("gcd"); e("a", int(a))("b", int(b))("g", V{int(sprout::gcd(a, b)), int(g1(a, b)), int(g2(a, b)), int(sprout::math::gcd(a, b))})("l", V{int(sprout::lcm(a, b)), int(l1(a, b)), int(l2(a, b)), int(sprout::math::lcm(a, b))}); e.emit();
}
template<typename T> void glbig(T a, T b, bool l) {
	Ev e("bgcd"); e("a", vf::bigz(a))("b", vf::bigz(b))("g", vf::bigz(sprout::gcd(a, b)))("l", vf::bigz(l ? sprout::lcm(a, b) : T(0)))("hasl", l); e.emit();
}
template<typename T> T any() { int w = vf::rnd(1, int(sizeof(T) * 8) - 1); T v = T(vf::rnd64() & ((1ull << w) - 1)); return std::numeric_limits<T>::is_signed && vf::rnd(0, 1) ? T(-v) : v; }
template<typename T> void pairs(int lo, int hi) { for (int a = lo; a <= hi; ++a) for (int b = lo; b <= hi; ++b) gl<T>(T(a), T(b)); }
template<typename T> void bigs() {
	for (int q = 0; q < (vf::thorough() ? 1500 : 100); ++q) {
		T a = any<T>(), b = any<T>(); if (q % 3 == 0) { T c = T(any<T>() % 1000 + 1); a = T(a / 1024 * c); b = T(b / 1024 * c); }
		__int128 l = 0; if (a && b) { __int128 x = a, y = b; if (x < 0) x = -x; if (y < 0) y = -y; while (y) { __int128 t = x % y; x = y; y = t; } l = (__int128(a) / x) * b; if (l < 0) l = -l; }
		glbig<T>(a, b, l <= __int128(std::numeric_limits<T>::max()));
	}
	T m = std::numeric_limits<T>::max(); glbig<T>(m, m, true); glbig<T>(m, 0, true); glbig<T>(0, m, true); glbig<T>(m, 1, true); glbig<T>(m, T(m - 1), false); if (std::numeric_limits<T>::is_signed) { glbig<T>(T(-m), m, true); glbig<T>(T(-m), T(0), true); glbig<T>(T(-m), T(-1), true); }
}
#if PART == 3
static V dv(std::intmax_t q, std::intmax_t r) { return V{int(q), int(r)}; }
int main(int ac, char** av) {
	vf::init(ac, av); int n = vf::thorough() ? 60 : 25;
	pairs<int>(-n, n); pairs<signed char>(-11, 11); pairs<short>(-n, n); pairs<long>(-n, n); pairs<long long>(-n, n); pairs<unsigned>(0, n); pairs<unsigned char>(0, 15); pairs<unsigned short>(0, n); pairs<unsigned long>(0, n); pairs<unsigned long long>(0, n); pairs<char>(-11, 11);
	bigs<int>(); bigs<unsigned>(); bigs<long long>(); bigs<unsigned long long>(); bigs<long>(); bigs<unsigned long>(); bigs<short>(); bigs<signed char>(); bigs<unsigned short>();
	for (int a = -n; a <= n; ++a) {
		Ev e("iabs"); e("a", a)("r", V{sprout::abs(a), int(sprout::abs(long(a))), int(sprout::abs((long long)(a))), int(sprout::labs(a)), int(sprout::llabs(a))}); e.emit();
		for (int b = -n; b <= n; ++b) if (b) { auto x = sprout::div(a, b); auto y = sprout::div(long(a), long(b)); auto z = sprout::div((long long)(a), (long long)(b)); auto u = sprout::ldiv(a, b); auto w = sprout::lldiv(a, b); Ev d("div"); d("a", a)("b", b)("r", std::vector<V>{dv(x.quot, x.rem), dv(y.quot, y.rem), dv(z.quot, z.rem), dv(u.quot, u.rem), dv(w.quot, w.rem)}); d.emit(); }
	}
	return vf::done();
}
#else
// rationals whose parts use the whole width of the type
template<typename T> rational<T> mk(int w) { T n = T(any<T>() >> (sizeof(T) * 8 - 1 - w)), d = T(any<T>() >> (sizeof(T) * 8 - 1 - w)); if (d < 0) d = T(-(d + 1)); return rational<T>(n, d == 0 ? T(1) : d); }
template<typename T> void wide(int w) {
	typedef rational<T> R; R a = mk<T>(w), b = mk<T>(w);
	switch (vf::rnd(0, 5)) { case 0: b = R(T(a.numerator() + 1), a.denominator()); break; case 1: b = R(a.numerator(), T(a.denominator() + 1)); break; case 2: b = a; break; }
	Ev e("brel"); e("a", bnd(a))("b", bnd(b))("r", V{a < b, a > b, a <= b, a >= b, a == b, a != b}); e.emit();
	T n = T(a.numerator() / a.denominator() + vf::rnd(-1, 1)); Ev f("brel"); f("a", bnd(a))("b", bnd(R(n)))("r", V{a < n, a > n, a <= n, a >= n, a == n, a != n}); f.emit(); Ev g("brel"); g("b", bnd(a))("a", bnd(R(n)))("r", V{n < a, n > a, n <= a, n >= a, n == a, n != a}); g.emit();
	if (w * 2 + 1 < int(sizeof(T) * 8) - 1) {
#define B(F, O) { R c = a; c O##= b; Ev x("bbin"); x("f", F)("a", bnd(a))("b", bnd(b))("r", bnd(R(a O b)))("c", bnd(c)); x.emit(); }
		B("+", +) B("-", -) B("*", *) if (b.numerator() != 0) B("/", /)
#undef B
	}
	T x = any<T>(), y = any<T>(); if (y != 0) { R c(x, y); Ev h("bmk"); h("n", vf::bigz(x))("d", vf::bigz(y))("r", bnd(c)); h.emit(); }
}
int main(int ac, char** av) {
	vf::init(ac, av);
	for (int q = 0; q < (vf::thorough() ? 2500 : 150); ++q) { wide<int>(30); wide<int>(14); wide<long long>(62); wide<long long>(30); wide<long>(61); wide<short>(6); wide<int>(20); wide<signed char>(2); }
	return vf::done();
}
#endif
#endif
