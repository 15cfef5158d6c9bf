// C08: histories over an array A, a reference window R of it and an owning window C (spec/WindowOps.tla).
#include "conts.hpp"
#include <sprout/algorithm.hpp>
#include <sprout/operation.hpp>
#include <sprout/sub_array.hpp>
using namespace vf;
#ifndef PART
#define PART 1
#endif
#if PART == 1
enum { N = 6 };
#else
enum { N = 9 };
#endif
typedef sprout::array<int, N> A_t;
typedef sprout::sub_array<A_t&> R_t;
typedef sprout::sub_array<A_t> C_t;

struct M {
	A_t a; R_t r; C_t c;
	M() : a(init()), r(a, 0, N), c(a, 0, N) {}
	static A_t init() { A_t x = {{}}; for (int i = 0; i < N; ++i) x[i] = rnd(0, 4); return x; }
};
template<typename W> V read(W const& w, int how) {
	V v;
	switch (how % 5) {
	case 0: for (auto it = w.begin(); it != w.end(); ++it) v.push_back(*it); break;
	case 1: for (std::size_t i = 0; i < w.size(); ++i) v.push_back(w[i]); break;
	case 2: for (std::size_t i = 0; i < w.size(); ++i) v.push_back(w.at(i)); break;
	case 3: for (std::size_t i = 0; i < w.size(); ++i) v.push_back(w.data()[i]); break;
	default: for (std::size_t i = 0; i < w.size(); ++i) v.push_back(*w.nth(i)); break;
	}
	if (!w.empty() && (w.front() != v.front() || w.back() != v.back())) v.push_back(-77);
	if (w.empty() != v.empty() || w.size() != v.size() || w.max_size() != v.size()) v.push_back(-78);
	return v;
}
static void fin(Ev& e, M& m, int how) {
	Snap r = snap(m.r), c = snap(m.c);
	V av(m.a.begin(), m.a.end());
	raw z; z.s = "{\"a\":" + js(av) + ",\"rl\":" + js(r.l) + ",\"rh\":" + js(r.h) + ",\"cw\":" + js(c.w) + ",\"cl\":" + js(c.l) + ",\"ch\":" + js(c.h);
	V rv = read(m.r, how), cv = read(m.c, how / 5);
	if (&m.r.get_internal() != &m.a) rv.push_back(-79);
	if (r.w != av) rv.push_back(-80);
	C_t rc = sprout::sub_copy(m.r); // same window, own buffer
	z.s += ",\"rv\":" + js(rv) + ",\"cv\":" + js(cv) + ",\"eq\":" + js(bool(rc == m.c)) + ",\"lt\":" + js(bool(rc < m.c));
	if ((rc != m.c) == (rc == m.c) || (m.c > rc) != (rc < m.c) || (rc <= m.c) != !(m.c < rc) || (rc >= m.c) != !(rc < m.c)) z.s += ",\"bad\":1";
	z.s += "}";
	e("z", z).emit();
}
static int len(M& m, char t) { return t == 'A' ? N : t == 'R' ? int(m.r.size()) : int(m.c.size()); }
struct neg { constexpr int operator()(int x) const { return -x; } };

// functional algorithm g on window w, result kept in C
template<typename W> C_t alg(int g, bool fit, W const& w, V const& src, int v, int n, int m, int i, int j) {
	int const* f = src.data(); int const* l = f + src.size();
#define PICK(CALL) (fit ? C_t(sprout::fit::CALL) : C_t(sprout::fixed::CALL))
	switch (g) {
	case 0: return PICK(copy(f, l, w));
	case 1: return PICK(copy_if(f, l, w, u_pos()));
	case 2: return PICK(transform(sprout::begin(w), sprout::end(w), w, neg()));
	case 3: return PICK(replace(w, v, n));
	case 4: return PICK(replace_if(w, u_zero(), n));
	case 5: return PICK(remove(w, v));
	case 6: return PICK(remove_if(w, u_pos()));
	case 7: return PICK(unique(w));
	case 8: return PICK(reverse(w));
	case 9: return PICK(rotate(w, sprout::next(sprout::begin(w), m)));
	case 10: return PICK(swap_element(w, sprout::next(sprout::begin(w), i), sprout::next(sprout::begin(w), j)));
	case 11: return PICK(fill(w, v));
	case 12: return PICK(fill_n(w, n, v));
	case 13: return PICK(sort(w));
	default: return PICK(stable_sort(w));
	}
}
static char const* names[] = {"copy", "copy_if", "transform", "replace", "replace_if", "remove", "remove_if", "unique", "reverse", "rotate", "swap_element", "fill", "fill_n", "sort", "sort"};
template<typename W> void inplace(int g, W& w, int v, int n, int m, int i, int j) {
	auto f = w.begin(), l = w.end();
	switch (g) {
	case 2: sprout::transform(f, l, f, neg()); break;
	case 3: sprout::replace(f, l, v, n); break;
	case 4: sprout::replace_if(f, l, u_zero(), n); break;
	case 8: sprout::reverse(f, l); break;
	case 9: sprout::rotate(f, f + m, l); break;
	case 10: sprout::iter_swap(f + i, f + j); break;
	case 11: sprout::fill(f, l, v); break;
	case 13: sprout::sort(f, l); break;
	default: sprout::stable_sort(f, l); break;
	}
}

static void history(int steps) {
	begin_history();
	M m;
	{ Ev e("start"); e("t", "A"); fin(e, m, 0); }
	for (int k = 0; k < steps; ++k) {
		char t = "ARRCC"[rnd(0, 4)];
		int n = len(m, t), lo = t == 'R' ? m.r.to_first() : t == 'C' ? m.c.to_first() : 0, hi = lo + n;
		int v = rnd(0, 4), how = rnd(0, 24);
		std::string ts(1, t);
		int op = rnd(0, 20);
		if (op == 0 && n > 0) {
			int i = rnd(0, n - 1);
			if (how % 4 == 2) i = 0; else if (how % 4 == 3) i = n - 1;
			Ev e("set"); e("t", ts)("i", i)("v", v);
			#define SETON(X) do { switch (how % 4) { case 0: X[i] = v; break; case 1: X.at(i) = v; break; case 2: X.front() = v; break; default: X.back() = v; break; } } while (0)
			if (t == 'A') SETON(m.a); else if (t == 'R') SETON(m.r); else SETON(m.c);
			fin(e, m, how);
		} else if (op == 1) {
			Ev e("fillw"); e("t", ts)("v", v);
			if (t == 'A') m.a.fill(v); else if (t == 'R') { if (how & 1) m.r.fill(v); else m.r.assign(v); } else { if (how & 1) m.c.fill(v); else m.c.assign(v); }
			fin(e, m, how);
		} else if (op == 2 && t != 'A' && hi < N) {
			Ev e("push_back"); e("t", ts)("v", v); int const& cv = v;
			if (t == 'R') { if (how & 1) m.r.push_back(cv); else m.r.push_back(int(v)); } else { if (how & 1) m.c.push_back(cv); else m.c.push_back(int(v)); }
			fin(e, m, how);
		} else if (op == 3 && t != 'A' && lo > 0) {
			Ev e("push_front"); e("t", ts)("v", v); int const& cv = v;
			if (t == 'R') { if (how & 1) m.r.push_front(cv); else m.r.push_front(int(v)); } else { if (how & 1) m.c.push_front(cv); else m.c.push_front(int(v)); }
			fin(e, m, how);
		} else if (op >= 4 && op <= 5 && t != 'A' && n > 0) {
			int q = rnd(0, 3); static char const* nm[] = {"pop_back", "pop_front", "drop_back", "drop_front"};
			Ev e(nm[q]); e("t", ts);
			#define POP(X) do { switch (q) { case 0: X.pop_back(); break; case 1: X.pop_front(); break; case 2: X.drop_back(); break; default: X.drop_front(); break; } } while (0)
			if (t == 'R') POP(m.r); else POP(m.c);
			fin(e, m, how);
		} else if (op >= 6 && op <= 8 && t != 'A') {
			// window / offset members: mutable form on t itself, const form stored to t (C only: R_t has no copy assignment to a fresh window)
			int i = rnd(0, N), j = rnd(0, N); if (i > j) std::swap(i, j);
			bool cst = how & 1;
			if (op == 6) {
				Ev e("window"); e("t", ts)("d", ts)("i", i)("j", j);
				if (t == 'R') { if (cst) { R_t const& k1 = m.r; R_t x((how & 2) ? k1.window(i, j) : k1.cwindow(i, j)); m.r = x; } else m.r.window(i, j); }
				else { if (cst) { C_t const& k1 = m.c; C_t x((how & 2) ? k1.window(i, j) : k1.cwindow(i, j)); m.c = x; } else m.c.window(i, j); }
				fin(e, m, how);
			} else if (op == 7) {
				Ev e("window1"); e("t", ts)("d", ts)("i", i);
				if (t == 'R') { if (cst) { R_t const& k1 = m.r; R_t x((how & 2) ? k1.window(i) : k1.cwindow(i)); m.r = x; } else m.r.window(i); }
				else { if (cst) { C_t const& k1 = m.c; C_t x((how & 2) ? k1.window(i) : k1.cwindow(i)); m.c = x; } else m.c.window(i); }
				fin(e, m, how);
			} else {
				int a = i - lo, b = j - hi;
				Ev e("offset"); e("t", ts)("d", ts)("i", a)("j", b);
				if (t == 'R') { if (cst) { R_t const& k1 = m.r; R_t x((how & 2) ? k1.offset(a, b) : k1.coffset(a, b)); m.r = x; } else m.r.offset(a, b); }
				else { if (cst) { C_t const& k1 = m.c; C_t x((how & 2) ? k1.offset(a, b) : k1.coffset(a, b)); m.c = x; } else m.c.offset(a, b); }
				fin(e, m, how);
			}
		} else if (op >= 9 && op <= 13) {
			int i = rnd(0, n), j = rnd(0, n); if (i > j) std::swap(i, j);
			bool toR = (t == 'A' || t == 'R') && (how & 1);
			bool one = op == 9;
			Ev e(one ? "sub1" : op == 13 ? "offset" : "sub"); e("t", ts)("d", toR ? "R" : "C")("i", i);
			if (op == 13) e("j", j - n); else if (!one) e("j", j);
			A_t const& ca = m.a;
			if (one) {
				if (t == 'A') { if (toR) { R_t x((how & 2) ? sprout::sub(m.a, i) : sprout::sub(m.a, ca.begin() + i)); m.r = x; }
					else { C_t x((how & 2) ? sprout::sub_copy(m.a, i) : sprout::sub_copy(ca, ca.begin() + i)); m.c = x; } }
				else if (t == 'R') { R_t const& k1 = m.r; if (toR) { R_t x((how & 2) ? sprout::sub(m.r, i) : sprout::sub(m.r, k1.begin() + i)); m.r = x; }
					else { C_t x((how & 2) ? sprout::sub_copy(m.r, i) : sprout::sub_copy(m.r, k1.begin() + i)); m.c = x; } }
				else { C_t const& k1 = m.c; C_t x((how & 4) ? sprout::sub(m.c, i) : (how & 2) ? sprout::sub_copy(m.c, i) : sprout::sub_copy(m.c, k1.begin() + i)); m.c = x; }
			} else if (op == 13) {
				if (t == 'A') { if (toR) { R_t x(sprout::sub_offset(m.a, i, j - n)); m.r = x; } else { C_t x(sprout::sub_offset_copy(m.a, i, j - n)); m.c = x; } }
				else if (t == 'R') { if (toR) { R_t x(sprout::sub_offset(m.r, i, j - n)); m.r = x; } else if (how & 2) { C_t x(sprout::sub_offset_copy(m.r, i, j - n)); m.c = x; }
					else { auto q = sprout::csub_offset(m.r, i, j - n); C_t x(q.get_internal(), q.to_first(), q.to_last()); m.c = x; } }
				else { C_t x((how & 2) ? sprout::sub_offset_copy(m.c, i, j - n) : sprout::sub_offset(m.c, i, j - n)); m.c = x; }
			} else {
				if (t == 'A') {
					if (toR) { R_t x(how % 3 == 0 ? sprout::sub(m.a, i, j) : how % 3 == 1 ? sprout::sub(m.a, ca.begin() + i, ca.begin() + j) : sprout::sub_window(m.a, i, j)); m.r = x; }
					else if (how % 3 == 2) { auto q = (how & 4) ? sprout::csub(m.a, i, j) : (how & 8) ? sprout::csub(m.a, ca.begin() + i, ca.begin() + j) : sprout::sub(ca, i, j); C_t x(q.get_internal(), q.to_first(), q.to_last()); m.c = x; }
					else { C_t x(how % 3 == 0 ? sprout::sub_copy(m.a, i, j) : sprout::sub_copy(m.a, ca.begin() + i, ca.begin() + j)); m.c = x; }
				} else if (t == 'R') {
					R_t const& k1 = m.r;
					if (toR) { R_t x(how % 3 == 0 ? sprout::sub(m.r, i, j) : how % 3 == 1 ? sprout::sub(m.r, k1.begin() + i, k1.begin() + j) : sprout::sub_window(m.r, i, j)); m.r = x; }
					else if (how % 3 == 2) { auto q = (how & 4) ? sprout::csub(m.r, i, j) : sprout::csub(m.r, k1.begin() + i, k1.begin() + j); C_t x(q.get_internal(), q.to_first(), q.to_last()); m.c = x; }
					else { C_t x(how % 3 == 0 ? sprout::sub_copy(m.r, i, j) : sprout::sub_copy(m.r, k1.begin() + i, k1.begin() + j)); m.c = x; }
				} else {
					C_t const& k1 = m.c;
					C_t x(how % 4 == 0 ? sprout::sub(m.c, i, j) : how % 4 == 1 ? sprout::sub(m.c, k1.begin() + i, k1.begin() + j) : how % 4 == 2 ? sprout::sub_copy(m.c, i, j) : sprout::sub_window_copy(m.c, i, j));
					if (how & 8) { C_t y(x); y.swap(m.c); } else m.c = x;
				}
			}
			fin(e, m, how);
		} else if (op >= 14 && op <= 18 && t != 'A') {
			int g = rnd(0, 14); if (g == 10 && n == 0) g = 8;
			bool fit = how & 1;
			int nn = g == 12 ? rnd(0, N) : rnd(0, 4), mm = rnd(0, n), i = n ? rnd(0, n - 1) : 0, j = n ? rnd(0, n - 1) : 0;
			V src = rnd_seq(5, rnd(0, N));
			Ev e("alg"); e("g", names[g])("f", fit ? "fit" : "fixed")("t", ts)("v", v)("n", nn)("m", mm)("i", i)("j", j)("u", g == 4 ? "zero" : "pos")("p", "eq")("op", "neg");
			if (g < 2) e("a", src);
			C_t x(t == 'R' ? alg(g, fit, m.r, src, v, nn, mm, i, j) : alg(g, fit, m.c, src, v, nn, mm, i, j));
			m.c = x;
			fin(e, m, how);
		} else if (op >= 19 && t != 'A') {
			static int const gs[] = {2, 3, 4, 8, 9, 10, 11, 13, 14};
			int g = gs[rnd(0, 8)]; if (g == 10 && n == 0) g = 8;
			int nn = rnd(0, 4), mm = rnd(0, n), i = n ? rnd(0, n - 1) : 0, j = n ? rnd(0, n - 1) : 0;
			Ev e("inplace"); e("g", names[g])("t", ts)("v", v)("n", nn)("m", mm)("i", i)("j", j)("u", "zero")("p", "eq")("op", "neg");
			if (t == 'R') inplace(g, m.r, v, nn, mm, i, j); else inplace(g, m.c, v, nn, mm, i, j);
			fin(e, m, how);
		}
	}
	end_history();
}
int main(int argc, char** argv) {
	init(argc, argv);
	int nh = thorough() ? 4000 : 700;
	for (int h = 0; h < nh; ++h) history(rnd(10, 60));
	return done();
}
