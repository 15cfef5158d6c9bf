// C18: valarray arithmetic, shifts and selections.
#include "vf.hpp"
#include <array>
#include <sprout/valarray.hpp>
#include <sprout/array.hpp>
#ifndef PART
#define PART 1
#endif
typedef std::vector<int> V;
template<std::size_t N> using A = sprout::valarray<int, N>;
template<std::size_t N> V vec(A<N> const& a) { V r; for (std::size_t i = 0; i < a.size(); ++i) r.push_back(a[i]); return r; }
template<std::size_t N> V vecb(sprout::valarray<bool, N> const& a) { V r; for (std::size_t i = 0; i < a.size(); ++i) r.push_back(a[i]); return r; }
template<std::size_t N> A<N> mk(V const& v) { return A<N>(v.data(), v.size()); }

struct Sel { int k; V a, b; int start; };   // 0 slice(start,a[0],b[0]), 1 gslice(start,a,b), 2 mask(a), 3 indirect(a)
static const char* const KN[] = {"slice", "gslice", "mask", "indirect"};
vf::Ev& put(vf::Ev& e, Sel const& s) { return e("k", KN[s.k])("st", s.start)("sa", s.a)("sb", s.b); }
template<std::size_t M> sprout::valarray<std::size_t, M> szs(V const& v) { std::size_t t[M + 1] = {}; for (std::size_t i = 0; i < v.size(); ++i) t[i] = v[i]; return sprout::valarray<std::size_t, M>(static_cast<std::size_t const*>(t), v.size()); }
template<std::size_t M> sprout::valarray<bool, M> bls(V const& v) { bool t[M + 1] = {}; for (std::size_t i = 0; i < v.size(); ++i) t[i] = v[i] != 0; return sprout::valarray<bool, M>(static_cast<bool const*>(t), v.size()); }
template<std::size_t N, typename F> void with(A<N>& a, Sel const& s, F f) {
	switch (s.k) {
	case 0: { f(a[sprout::slice(s.start, s.a[0], s.b[0])]); } break;
	case 1: {
		if (s.a.size() == 1) f(a[sprout::gslice<1>(s.start, szs<1>(s.a), szs<1>(s.b))]);
		else if (s.a.size() == 2) f(a[sprout::gslice<2>(s.start, szs<2>(s.a), szs<2>(s.b))]);
		else f(a[sprout::gslice<3>(s.start, szs<3>(s.a), szs<3>(s.b))]);
	} break;
	case 2: if (s.a.size() % 2) { f(a[bls<N>(s.a)]); } else { f(a[bls<N + 2>(s.a)]); } break;
	case 3: f(a[szs<N>(s.a)]); break;
	}
}
template<std::size_t N> A<N> cget(A<N> const& a, Sel const& s) {
	switch (s.k) {
	case 0: return a[sprout::slice(s.start, s.a[0], s.b[0])];
	case 1: return s.a.size() == 1 ? a[sprout::gslice<1>(s.start, szs<1>(s.a), szs<1>(s.b))] : s.a.size() == 2 ? a[sprout::gslice<2>(s.start, szs<2>(s.a), szs<2>(s.b))] : a[sprout::gslice<3>(s.start, szs<3>(s.a), szs<3>(s.b))];
	case 2: return s.a.size() % 2 ? a[bls<N>(s.a)] : a[bls<N + 2>(s.a)];
	default: return a[szs<N>(s.a)];
	}
}
// a random selection of distinct elements (or, for reading, possibly repeated ones) of n
Sel rsel(int n, int cap, bool distinct) {
	using vf::rnd;
	for (;;) {
		Sel s; s.k = rnd(0, 3); s.start = 0;
		if (s.k == 0) {
			int c = rnd(0, n), st = rnd(distinct ? 1 : 0, 3), b = rnd(0, n > 0 ? n - 1 : 0);
			if (c > 0 && b + st * (c - 1) >= n) continue;
			s.start = b; s.a = V(1, c); s.b = V(1, st); return s;
		}
		if (s.k == 1) {
			int m = rnd(1, 3), tot = 1, mx; mx = s.start = rnd(0, n > 0 ? n - 1 : 0);
			for (int i = 0; i < m; ++i) { int c = rnd(rnd(0, 9) ? 1 : 0, 3); s.a.push_back(c); s.b.push_back(rnd(0, 5)); tot *= c; if (c) mx += (c - 1) * s.b.back(); }
			if (tot > cap || (tot > 0 && mx >= n)) continue;
			if (distinct) { // reject overlapping
				std::vector<int> idx(1, s.start);
				for (int i = 0; i < m; ++i) { std::vector<int> nx; for (int x : idx) for (int j = 0; j < s.a[i]; ++j) nx.push_back(x + j * s.b[i]); idx = nx; }
				std::sort(idx.begin(), idx.end()); if (std::unique(idx.begin(), idx.end()) != idx.end()) continue;
			}
			return s;
		}
		if (s.k == 2) { for (int i = 0, m = n; i < m; ++i) s.a.push_back(rnd(0, 1)); return s; }
		int c = n ? rnd(0, cap) : 0; if (distinct && c > n) continue;
		std::vector<int> used;
		for (int i = 0; i < c; ++i) { int x = rnd(0, n - 1); if (distinct && std::find(used.begin(), used.end(), x) != used.end()) { --i; continue; } used.push_back(x); s.a.push_back(x); }
		return s;
	}
}

#if PART == 1
template<std::size_t N> void bin(const char* f, const char* form, V const& a, V const& b, A<N> const& r) { vf::Ev e("bin"); e("f", f)("m", form)("a", a)("b", b)("r", vec(r)); e.emit(); }
template<std::size_t N> void binb(const char* f, const char* form, V const& a, V const& b, sprout::valarray<bool, N> const& r) { vf::Ev e("bin"); e("f", f)("m", form)("a", a)("b", b)("r", vecb(r)); e.emit(); }
#define B3(op) bin(#op, "vv", a, b, x op y); bin(#op, "vs", a, V(1, s), x op s); bin(#op, "sv", V(1, s), b, s op y);
#define C3(op) binb(#op, "vv", a, b, x op y); binb(#op, "vs", a, V(1, s), x op s); binb(#op, "sv", V(1, s), b, s op y);
template<std::size_t N> struct R { Sel const& s; V const& a; A<N>& m; template<typename W> void operator()(W const& w) const {
	V f, r, at, ix; int th = 0; for (typename W::iterator i = w.begin(); i != w.end(); ++i) f.push_back(*i);
	for (typename W::reverse_iterator i = w.rbegin(); i != w.rend(); ++i) r.push_back(*i);
	for (std::size_t i = 0; i <= w.size(); ++i) try { at.push_back(w.at(i)); if (&w.at(i) < m.data() || &w.at(i) >= m.data() + m.size()) at.push_back(-98); } catch (std::out_of_range const&) { ++th; }
	for (std::size_t i = 0; i < w.size(); ++i) { ix.push_back(w[i]); if (w.index_of(w.nth(i)) != i) ix.push_back(-99); }
	try { w.nth(w.size()); } catch (std::out_of_range const&) { ++th; }
	W cp(w);
	vf::Ev e("view"); put(e, s)("a", a)("f", f)("r", r)("at", at)("ix", ix)("v", vec(A<N>(cp)))("n", int(w.size()))("em", w.empty())("th", th)("fr", w.size() ? V{w.front(), w.back()} : V()); e.emit();
} };
static int twice(int x) { return 2 * x; }
static int succr(int const& x) { return x + 1; }
struct sq { SPROUT_CONSTEXPR int operator()(int x) const { return x * x; } };
template<std::size_t N> void stateless(V const& a, V b, int s) {
	A<N> const x = mk<N>(a), y = mk<N>(b);
	B3(+) B3(-) B3(*) C3(==) C3(!=) C3(<) C3(>) C3(<=) C3(>=) C3(&&) C3(||)
	{ V nb(b); for (int& t : nb) if (!t) t = 3; b = nb; int os = s; if (!s) s = 2; A<N> const y = mk<N>(b); B3(/) B3(%) s = os; }
	{
		V pa(a), pb(b); for (int& t : pa) t = t < 0 ? -t : t; for (int& t : pb) t = t < 0 ? -t : t;
		int os = s; s = s < 0 ? -s : s; V oa(a), ob(b); V const &a = pa, &b = pb; A<N> const x = mk<N>(pa), y = mk<N>(pb);
		B3(&) B3(|) B3(^) B3(<<) B3(>>) s = os;
	}
	{ vf::Ev e("un"); e("f", "+")("a", a)("r", vec(+x)); e.emit(); }
	{ vf::Ev e("un"); e("f", "-")("a", a)("r", vec(-x)); e.emit(); }
	{ vf::Ev e("un"); e("f", "~")("a", a)("r", vec(~x)); e.emit(); }
	{ vf::Ev e("un"); e("f", "!")("a", a)("r", vecb(!x)); e.emit(); }
	{ vf::Ev e("un"); e("f", "twice")("a", a)("r", vec(x.apply(twice))); e.emit(); }
	{ vf::Ev e("un"); e("f", "succ")("a", a)("r", vec(x.apply(succr))); e.emit(); }
	{ vf::Ev e("un"); e("f", "sq")("a", a)("r", vec(x.apply(sq()))); e.emit(); }
	{ vf::Ev e("un"); e("f", "const")("a", a)("x", s)("r", vec(x.fill(s))); e.emit(); }
	{ vf::Ev e("un"); e("f", "const")("a", a)("x", s)("r", vec(x.assign(s))); e.emit(); }
	{ vf::Ev e("sum"); e("a", a)("r", x.sum()); e.emit(); }
	if (!a.empty()) { vf::Ev e("minmax"); e("a", a)("r", x.min())("m", x.max()); e.emit(); }
	for (int i = -int(N) - 2; i <= int(N) + 2; ++i) {
		{ vf::Ev e("shift"); e("a", a)("n", i)("r", vec(x.shift(i))); e.emit(); }
		{ vf::Ev e("cshift"); e("a", a)("n", i)("r", vec(x.cshift(i))); e.emit(); }
	}
	{ // accessors
		vf::Ev e("acc"); V f, r, c; for (typename A<N>::const_iterator i = x.begin(); i != x.end(); ++i) f.push_back(*i);
		for (typename A<N>::const_reverse_iterator i = x.rbegin(); i != x.rend(); ++i) r.push_back(*i);
		for (typename A<N>::const_reverse_iterator i = x.crbegin(); i != x.crend(); ++i) c.push_back(*i);
		V g; for (typename A<N>::const_iterator i = x.cbegin(); i != x.cend(); ++i) g.push_back(*i);
		V d(x.data(), x.data() + x.size()), at; int th = 0;
		for (std::size_t i = 0; i <= N; ++i) { try { at.push_back(x.at(i)); if (x.index_of(x.nth(i)) != i || *x.nth(i) != x.at(i)) at.push_back(-99); } catch (std::out_of_range const&) { ++th; } }
		e("a", a)("f", f)("r", r)("g", g)("c", c)("d", d)("at", at)("n", int(x.size()))("em", x.empty())("ms", int(x.max_size()))("cap", int(N))("th", th);
		e("fr", a.empty() ? V() : V{x.front(), x.back()}); e.emit();
	}
	{ // mutable accessors and construction
		A<N> m(x); V f, r, at; for (typename A<N>::iterator i = m.begin(); i != m.end(); ++i) f.push_back(*i);
		for (typename A<N>::reverse_iterator i = m.rbegin(); i != m.rend(); ++i) r.push_back(*i);
		for (std::size_t i = 0; i < a.size(); ++i) { at.push_back(m.at(i)); if (m.index_of(m.nth(i)) != i) at.push_back(-99); }
		vf::Ev e("macc"); e("a", a)("f", f)("r", r)("at", at)("d", V(m.data(), m.data() + m.size()))("c", V(m.c_array(), m.c_array() + m.size()))("n", int(A<N>(a.size()).size()))("z", vec(A<N>(a.size())))("w", vec(A<N>(s, a.size())))("x", s)("e", vec(A<N>()));
		e("cp", vec(A<N>(static_cast<A<N>&&>(m))))("tv", vec(sprout::to_valarray(x))); e.emit();
	}
	{ vf::Ev e("over"); int th = 0; try { A<N> t(N + 1); } catch (std::length_error const&) { ++th; } try { A<N> t(7, N + 1); } catch (std::length_error const&) { ++th; } int big[N + 1] = {}; try { A<N> t(static_cast<int const*>(big), N + 1); } catch (std::length_error const&) { ++th; } e("th", th); e.emit(); }
	{ Sel s = rsel(int(a.size()), int(N), false); vf::Ev e("cget"); put(e, s)("a", a)("r", vec(cget(x, s))); e.emit(); }
	for (int q = 0; q < 3; ++q) { // views read
		Sel s = rsel(int(a.size()), int(N), false);
		A<N> m(x);
		with(m, s, R<N>{s, a, m});
	}
}
void makes(int a, int b, int c) {
	vf::Ev e("make"); e("a", V{a, b, c}); std::vector<V> r; int arr[3] = {a, b, c};
	r.push_back(vec(sprout::make_valarray<int>(a, b, c)));
	r.push_back(vec(sprout::make_valarray<int, 5>(a, b, c)));
	r.push_back(vec(sprout::make_valarray(a, b, c)));
	r.push_back(vec(sprout::make_valarray<4>(a, b, c)));
	r.push_back(vec(sprout::make_common_valarray(a, short(b), c)));
	r.push_back(vec(sprout::make_common_valarray<5>(a, b, c)));
	r.push_back(vec(sprout::make_valarray_without_narrowing<int>(a, b, c)));
	r.push_back(vec(sprout::make_valarray_without_narrowing<int, 3>(a, b, c)));
	r.push_back(vec(sprout::make_valarray_without_narrowing(a, b, c)));
	r.push_back(vec(sprout::make_valarray_without_narrowing<4>(a, b, c)));
	r.push_back(vec(sprout::to_valarray(arr)));
	r.push_back(vec(sprout::to_valarray(std::array<int, 3>{{a, b, c}})));
	r.push_back(vec(sprout::to_valarray(sprout::array<int, 3>{{a, b, c}})));
	r.push_back(vec(A<3>{a, b, c}));
	r.push_back(vec(A<6>{a, b, c}));
	sprout::valarray<int, 3> t{a, b, c};
	r.push_back(V{sprout::tuples::get<0>(t), sprout::tuples::get<1>(t), sprout::tuples::get<2>(t)});
	e("r", r); e.emit();
	sprout::valarray<int, 3> u{a, b, c}; sprout::valarray<int, 5> x{a, b, c}, y{a, b, c};
	vf::Ev h("hash"); h("same", sprout::to_hash(t) == sprout::to_hash(u) && sprout::to_hash(x) == sprout::to_hash(y)); h.emit();
}
int main(int ac, char** av) {
	vf::init(ac, av);
	for (int it = 0, n = vf::thorough() ? 400 : 40; it < n; ++it) {
		int len = vf::rnd(0, 5); V a, b; for (int i = 0; i < len; ++i) { a.push_back(vf::rnd(-9, 9)); b.push_back(vf::rnd(-4, 4)); }
		stateless<5>(a, b, vf::rnd(-4, 4));
		len = vf::rnd(0, 8); a.clear(); b.clear(); for (int i = 0; i < len; ++i) { a.push_back(vf::rnd(-3, 3)); b.push_back(vf::rnd(-3, 3)); }
		stateless<8>(a, b, vf::rnd(-3, 3));
		if (it % 8 == 0) { a.resize(len > 0 ? 1 : 0); b.resize(a.size()); stateless<1>(a, b, 2); }
		makes(vf::rnd(-9, 9), vf::rnd(-9, 9), vf::rnd(-9, 9));
	}
	return vf::done();
}
#endif

#if PART == 2
// histories: x, y are two valarrays of capacity N; everything is logged after each step
template<std::size_t N> struct Hist {
	A<N> x, y;
	struct Step { const char* o; };
	vf::Ev& state(vf::Ev& e) { return e("x", vec(x))("y", vec(y))("cap", int(N)); }
	struct WriteV { const char* f; A<N> const& r; A<N + 2> const& r2; int sc; template<typename W> void operator()(W w) const {
		std::string o = f;
		if (o == "fill") { w = sc; return; }
#define CASE(op) if (o == #op) { if (sc) w op r; else w op r2; return; }
		CASE(=) CASE(+=) CASE(-=) CASE(*=) CASE(/=) CASE(%=) CASE(&=) CASE(|=) CASE(^=) CASE(<<=) CASE(>>=)
	} };
	template<typename W1> struct Inner { W1& w; template<typename W2> void operator()(W2 v) const { assign(w, v, 0); }
		template<typename W2> static auto assign(W1& w, W2& v, int) -> decltype(void(w = v)) { w = v; }
		template<typename W2> static void assign(W1& w, W2& v, long) { A<N> t(v); w = t; } };
	struct Outer { A<N>& y; Sel const& t; template<typename W1> void operator()(W1 w) const { with(y, t, Inner<W1>{w}); } };
	struct Swp { A<N>& x; Sel const& t; };
	struct AssignV { A<N>& x; int how; template<typename W> void operator()(W w) const { if (how) { x = w; } else { A<N> n(w); x = n; } } };
	void run(int steps) {
		using vf::rnd; vf::begin_history();
		{ vf::Ev e("init"); state(e); e.emit(); }
		for (int s = 0; s < steps; ++s) {
			int n = int(x.size()), v = rnd(-5, 5);
			switch (rnd(0, 19)) {
			case 0: case 1: { // whole assignment
				V l; for (int i = 0, k = rnd(0, N); i < k; ++i) l.push_back(rnd(-6, 6)); vf::Ev e("setx");
				switch (rnd(0, 4)) { case 0: x = mk<N>(l); break; case 1: { A<N> t(mk<N>(l)); x = t; } break; case 2: x = A<N>(mk<N>(l)); break;
				case 3: l = V{v, 2, v + 1}; x = {v, 2, v + 1}; break;
				case 4: { A<N> t(mk<N>(l)); x.swap(t); } break; }
				e("b", l); state(e); e.emit(); } break;
			case 2: { vf::Ev e("same"); A<N> t(x); x = t; A<N>& self = x; x = self; state(e); e.emit(); } break;
			case 3: { vf::Ev e("swap"); if (v > 0) x.swap(y); else if (v < 0) swap(x, y); else sprout::swap(x, y); state(e); e.emit(); } break;
			case 4: { vf::Ev e("copyxy"); e("v", v); if (v > 0) x = y; else { A<N> t(y); x = static_cast<A<N>&&>(t); } state(e); e.emit(); } break;
			case 5: { vf::Ev e("fillx"); e("v", v); switch (rnd(0, 2)) { case 0: x = v; break; case 1: x.fill(v); break; case 2: x.assign(v); break; } state(e); e.emit(); } break;
			case 6: { int k = rnd(0, N); vf::Ev e("resize"); bool d = rnd(0, 3) == 0; if (d) x.resize(k); else x.resize(k, v); e("n", k)("v", d ? 0 : v); state(e); e.emit(); } break;
			case 7: { bool th = false; try { x.resize(N + 1 + rnd(0, 2), v); } catch (std::length_error const&) { th = true; } vf::Ev e("toolong"); e("th", th); state(e); e.emit(); } break;
			case 8: if (n) { int i = rnd(0, n - 1); switch (rnd(0, 5)) { case 0: x[i] = v; break; case 1: x.at(i) = v; break; case 2: *(x.begin() + i) = v; break; case 3: *(x.rbegin() + (n - 1 - i)) = v; break; case 4: *x.nth(i) = v; break;
				case 5: if (i == 0) x.front() = v; else if (i == n - 1) x.back() = v; else x.data()[i] = v; break; } vf::Ev e("set1"); e("i", i)("v", v); state(e); e.emit(); } break;
			case 9: case 10: { // compound with scalar; keep magnitudes small
				static const char* const OP[] = {"*=", "/=", "%=", "+=", "-=", "^=", "&=", "|=", "<<=", ">>="}; int o = rnd(0, 9); int k = v;
				if (o == 1 || o == 2) { if (!k) k = 3; }
				if (o >= 5) { for (std::size_t i = 0; i < x.size(); ++i) if (x[i] < 0) x[i] = -x[i]; { vf::Ev e("abs"); state(e); e.emit(); } k = k < 0 ? -k : k; if (o >= 8) k %= 3; }
				switch (o) { case 0: x *= k; break; case 1: x /= k; break; case 2: x %= k; break; case 3: x += k; break; case 4: x -= k; break; case 5: x ^= k; break; case 6: x &= k; break; case 7: x |= k; break; case 8: x <<= k; break; case 9: x >>= k; break; }
				vf::Ev e("cs"); e("f", OP[o])("v", k); state(e); e.emit();
				if (x.size() && (x.max() > 100000 || x.min() < -100000)) { x %= 97; vf::Ev e2("cs"); e2("f", "%=")("v", 97); state(e2); e2.emit(); } } break;
			case 11: case 12: case 13: case 14: { // write through a selection
				static const char* const OP[] = {"=", "fill", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}; int o = rnd(0, 11);
				Sel t = rsel(n, N, true); int cnt = 0; { A<N> c(x); cnt = int(vec(cget(c, t)).size()); }
				V r; for (int i = 0; i < cnt; ++i) { int z = rnd(-4, 4); if ((o == 5 || o == 6) && !z) z = 3; if (o >= 7) z = z < 0 ? -z : z; if (o >= 10) z %= 3; r.push_back(z); }
				if (o >= 7) { for (std::size_t i = 0; i < x.size(); ++i) if (x[i] < 0) x[i] = -x[i]; vf::Ev e("abs"); state(e); e.emit(); }
				A<N> ra(mk<N>(r)); A<N + 2> rb(mk<N + 2>(r)); bool wide = rnd(0, 1) == 1; int sc = o == 1 ? v : wide ? 0 : 1;
				with(x, t, WriteV{OP[o], ra, rb, sc});
				vf::Ev e("vset"); put(e, t)("f", OP[o])("b", r)("v", v); state(e); e.emit();
				if (x.size() && (x.max() > 100000 || x.min() < -100000)) { x %= 97; vf::Ev e2("cs"); e2("f", "%=")("v", 97); state(e2); e2.emit(); } } break;
			case 15: case 16: { // selection of x from a selection of y of the same size
				for (int tries = 0; tries < 60; ++tries) { Sel t = rsel(n, N, true), u = rsel(int(y.size()), N, false);
					if (vec(cget(x, t)).size() != vec(cget(y, u)).size()) continue;
					if (tries < 40 && (t.k != u.k || t.a.size() != u.a.size())) continue;
					with(x, t, Outer{y, u});
					vf::Ev e("vv"); put(e, t)("k2", KN[u.k])("st2", u.start)("sa2", u.a)("sb2", u.b); state(e); e.emit(); break; } } break;
			case 17: { Sel u = rsel(int(y.size()), N, false); with(y, u, AssignV{x, rnd(0, 1)}); vf::Ev e("fromview"); put(e, u); state(e); e.emit(); } break;
			case 18: { vf::Ev e("shiftx"); int k = rnd(-int(N) - 1, int(N) + 1); x = x.shift(k); e("n", k); state(e); e.emit(); } break;
			case 19: { vf::Ev e("cshiftx"); int k = rnd(-int(N) - 1, int(N) + 1); x = x.cshift(k); e("n", k); state(e); e.emit(); } break;
			}
		}
		vf::end_history();
	}
};
int main(int ac, char** av) {
	vf::init(ac, av);
	for (int h = 0, n = vf::thorough() ? 1200 : 120; h < n; ++h) { { Hist<6> a{}; a.run(40); } { Hist<4> b{}; b.run(25); } }
	return vf::done();
}
#endif

#if PART == 3
#include <cstdio>
// the mathematical functions, element by element: what the valarray gives and what the plain function gives for the paired elements
template<std::size_t N> std::string hexes(sprout::valarray<double, N> const& a) { std::string s; for (std::size_t i = 0; i < a.size(); ++i) { char b[64]; std::snprintf(b, sizeof b, "%s\"%a\"", i ? "," : "", a[i] == a[i] ? a[i] : -12345.678); s += b; } return "[" + s + "]"; }
template<std::size_t N> void emit(char const* f, V const& p, V const& q, sprout::valarray<double, N> const& r, sprout::valarray<double, N> const& w) { vf::Ev e("math"); e("f", f)("a", p)("b", q)("r", vf::raw{hexes(r)})("each", vf::raw{hexes(w)}); e.emit(); }
#define M1(f) { using sprout::f; sprout::valarray<double, N> w(x); for (std::size_t i = 0; i < w.size(); ++i) w[i] = sprout::f(x[i]); emit<N>(#f, p, V(), f(x), w); }
#define M2(f) { using sprout::f; sprout::valarray<double, N> w(x), u(x), z(y); for (std::size_t i = 0; i < w.size(); ++i) { w[i] = sprout::f(x[i], y[i]); u[i] = sprout::f(x[i], y[0]); z[i] = sprout::f(x[0], y[i]); } \
	emit<N>(#f, p, q, f(x, y), w); if (x.size()) { emit<N>(#f "vs", p, q, f(x, y[0]), u); emit<N>(#f "sv", p, q, f(x[0], y), z); } }
template<std::size_t N> void math(int n, int lo, int hi) {
	V p = vf::rnd_seq(hi - lo + 1, n, lo), q = vf::rnd_seq(hi - lo + 1, n, lo); sprout::valarray<double, N> x(0.0, n), y(0.0, n); for (int i = 0; i < n; ++i) { x[i] = p[i] / 16.0; y[i] = q[i] / 8.0; }
	M1(acos) M1(asin) M1(atan) M2(atan2) M1(cos) M1(sin) M1(tan) M1(acosh) M1(asinh) M1(atanh) M1(cosh) M1(sinh) M1(tanh)
	M1(exp) M1(exp10) M1(exp2) M1(expm1) M1(log) M1(log10) M1(log1p) M1(log2) M1(cbrt) M1(sqrt) M2(hypot) M2(pow) M2(log_a)
	{ sprout::valarray<double, N> w(x); for (std::size_t i = 0; i < w.size(); ++i) w[i] = x[i] < 0 ? -x[i] : x[i]; emit<N>("abs", p, V(), abs(x), w); }
	{ V k; sprout::valarray<int, N> v(0, n); for (int i = 0; i < n; ++i) v[i] = p[i]; v = abs(v); for (int i = 0; i < n; ++i) k.push_back(v[i]); vf::Ev e("iabs"); e("a", p)("r", k); e.emit(); }
}
int main(int ac, char** av) {
	vf::init(ac, av);
	for (int h = 0, n = vf::thorough() ? 60 : 8; h < n; ++h) { vf::begin_history(); math<5>(vf::rnd(1, 5), -15, 16); math<3>(vf::rnd(0, 3), 1, 60); math<1>(1, -60, 60); vf::end_history(); }
	return vf::done();
}
#endif
