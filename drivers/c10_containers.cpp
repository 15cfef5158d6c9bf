// C10: every access path of a container sees the same elements; comparison, hash, assignment, swap, windows.
// PART 1: whole containers (paths, comparisons)  PART 2: windows and pits  PART 3: histories of two windowed containers
#include "conts.hpp"
#include <sprout/container.hpp>
#include <sprout/valarray.hpp>
#include <sprout/string.hpp>
#include <sprout/pit.hpp>
#include <sprout/sized_pit.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sprout/iterator/operation.hpp>
#include <sprout/iterator/reverse_iterator.hpp>
#include <array>
#include <stdexcept>
using vf::V;
#define T_THROW(EXPR) ([&]() -> bool { try { (void)(EXPR); return false; } catch (std::out_of_range const&) { return true; } }())

struct Obs {
	std::vector<V> fwd, rev; V sizes, idx; std::vector<bool> emp, thr; V fronts, backs;
	void emit(char const* kind, V const& a) {
		vf::Ev e("paths"); e("k", kind)("a", a)("p", js(fwd))("q", js(rev))("n", sizes)("i", idx)("f", fronts)("b", backs);
		std::string em = "[", th = "[";
		for (std::size_t i = 0; i < emp.size(); ++i) { em += (i ? "," : ""); em += emp[i] ? "true" : "false"; }
		for (std::size_t i = 0; i < thr.size(); ++i) { th += (i ? "," : ""); th += thr[i] ? "true" : "false"; }
		vf::raw r; r.s = em + "]"; e("e", r); r.s = th + "]"; e("t", r); e.emit();
	}
	static vf::raw js(std::vector<V> const& v) { vf::raw r; r.s = "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i) r.s += ","; r.s += vf::js(v[i]); } r.s += "]"; return r; }
};
template<typename It> V list(It f, It l) { V r; for (; f != l && r.size() < 100; ++f) r.push_back(int(*f)); return r; }
template<typename It> V list_back(It f, It l) { V r; while (l != f && r.size() < 100) { --l; r.push_back(int(*l)); } return r; }
template<typename It> V list_dist(It f, It l) { V r; std::ptrdiff_t n = sprout::distance(f, l); for (std::ptrdiff_t i = 0; i < n && i < 100; ++i) r.push_back(int(*sprout::next(f, i))); return r; }
template<typename It> V list_prev(It f, It l) { V r; std::ptrdiff_t n = sprout::distance(f, l); for (std::ptrdiff_t i = 1; i <= n && i < 100; ++i) r.push_back(int(*sprout::prev(l, i))); return r; }
template<typename It> V list_ra(It f, It l) { V r; std::ptrdiff_t n = l - f; for (std::ptrdiff_t i = 0; i < n && i < 100; ++i) r.push_back(int(i % 2 ? f[i] : *(f + i))); return r; }
template<typename It> V list_ra_back(It f, It l) { V r; std::ptrdiff_t n = l - f; for (std::ptrdiff_t i = 1; i <= n && i < 100; ++i) { It t = l; t -= i; r.push_back(int(*t)); } return r; }

template<typename C> void iters(Obs& o, C& c) {
	o.fwd.push_back(list(sprout::begin(c), sprout::end(c)));
	o.fwd.push_back(list(sprout::cbegin(c), sprout::cend(c)));
	o.fwd.push_back(list_dist(sprout::begin(c), sprout::end(c)));
	o.fwd.push_back(list_ra(sprout::begin(c), sprout::end(c)));
	o.rev.push_back(list_back(sprout::begin(c), sprout::end(c)));
	o.rev.push_back(list_prev(sprout::begin(c), sprout::end(c)));
	o.rev.push_back(list_ra_back(sprout::begin(c), sprout::end(c)));
	o.rev.push_back(list(sprout::make_reverse_iterator(sprout::end(c)), sprout::make_reverse_iterator(sprout::begin(c))));
	o.sizes.push_back(int(sprout::size(c)));
	o.sizes.push_back(int(sprout::distance(sprout::begin(c), sprout::end(c))));
	o.sizes.push_back(int(sprout::end(c) - sprout::begin(c)));
	o.emp.push_back(sprout::empty(c));
	o.emp.push_back(sprout::begin(c) == sprout::end(c));
	o.emp.push_back(!(sprout::begin(c) != sprout::end(c)));
	o.emp.push_back(!(sprout::begin(c) < sprout::end(c)));
	o.emp.push_back(sprout::begin(c) >= sprout::end(c));
}
template<typename C> void frees(Obs& o, C& c, std::size_t n, bool chk = true) {
	V a, b, d, e;
	for (std::size_t i = 0; i < n; ++i) {
		a.push_back(int(sprout::at(c, i))); b.push_back(int(sprout::subscript_at(c, i)));
		d.push_back(int(*sprout::nth(c, i))); e.push_back(int(sprout::as_const(c).size() ? sprout::cat(c, i) : 0));
		o.idx.push_back(int(i)); o.idx.push_back(int(sprout::index_of(c, sprout::nth(c, i))));
		o.idx.push_back(int(i)); o.idx.push_back(int(sprout::index_of(c, sprout::next(sprout::begin(c), std::ptrdiff_t(i)))));
	}
	o.fwd.push_back(a); o.fwd.push_back(b); o.fwd.push_back(d); o.fwd.push_back(e);
	if (n) { o.fronts.push_back(int(sprout::front(c))); o.backs.push_back(int(sprout::back(c))); }
	o.thr.push_back(T_THROW(sprout::at(c, n))); o.thr.push_back(T_THROW(sprout::at(c, n + 3)));
	o.thr.push_back(T_THROW(sprout::at(c, std::size_t(-1))));
	if (chk) { o.thr.push_back(T_THROW(sprout::nth(c, n))); o.thr.push_back(T_THROW(sprout::nth(c, std::size_t(-1)))); }
	for (std::size_t i = 0; i < n; ++i) o.thr.push_back(!T_THROW(sprout::range_index_check(c, i)));
	o.thr.push_back(T_THROW(sprout::range_index_check(c, n)));
}
template<typename C> void members(Obs& o, C& c, std::size_t n) {
	o.fwd.push_back(list(c.begin(), c.end())); o.fwd.push_back(list(c.cbegin(), c.cend()));
	o.sizes.push_back(int(c.size())); o.emp.push_back(c.empty());
	V a, b;
	for (std::size_t i = 0; i < n; ++i) { a.push_back(int(c.at(i))); b.push_back(int(c[i])); o.thr.push_back(!T_THROW(c.rangecheck(i))); }
	o.fwd.push_back(a); o.fwd.push_back(b);
	if (n) { o.fronts.push_back(int(c.front())); o.backs.push_back(int(c.back())); }
	o.thr.push_back(T_THROW(c.at(n))); o.thr.push_back(T_THROW(c.at(std::size_t(-1)))); o.thr.push_back(T_THROW(c.rangecheck(n))); o.thr.push_back(T_THROW(c.rangecheck(n + 1)));
}
template<typename C> void revs(Obs& o, C& c) {
	o.rev.push_back(list(c.rbegin(), c.rend())); o.rev.push_back(list(c.crbegin(), c.crend()));
	o.fwd.push_back(list_back(c.rbegin(), c.rend()));
}
template<typename C> void nths(Obs& o, C& c, std::size_t n) {
	V a;
	for (std::size_t i = 0; i < n; ++i) { a.push_back(int(*c.nth(i))); o.idx.push_back(int(i)); o.idx.push_back(int(c.index_of(c.nth(i)))); }
	o.fwd.push_back(a);
	o.idx.push_back(int(n)); o.idx.push_back(int(c.index_of(c.end()))); o.idx.push_back(0); o.idx.push_back(int(c.index_of(c.begin())));
	o.thr.push_back(T_THROW(c.nth(n))); o.thr.push_back(T_THROW(c.nth(std::size_t(-1))));
}
template<typename C> void datas(Obs& o, C& c, std::size_t n) { o.fwd.push_back(V(c.data(), c.data() + n)); o.fwd.push_back(V(c.c_array(), c.c_array() + n)); o.fwd.push_back(V(sprout::data(c), sprout::data(c) + n)); }
template<int I, int N> struct Get {
	template<typename C> static void f(C& c, V& a, V& b) {
		a.push_back(int(sprout::tuples::get<I>(c))); C t(c); b.push_back(int(sprout::tuples::get<I>(sprout::move(t)))); Get<I + 1, N>::f(c, a, b);
	}
};
template<int N> struct Get<N, N> { template<typename C> static void f(C&, V&, V&) {} };
template<int N, typename C> void tup(Obs& o, C& c) { V a, b; Get<0, N>::f(c, a, b); o.fwd.push_back(a); o.fwd.push_back(b); o.sizes.push_back(int(sprout::tuples::tuple_size<typename std::remove_const<C>::type>::value)); }

template<typename A, typename B> void compare(A const& x, B const& y, V const& a, V const& b, bool heq) {
	vf::Ev("cmp")("a", a)("b", b)("eq", x == y)("ne", x != y)("lt", x < y)("gt", x > y)("le", x <= y)("ge", x >= y)("h", heq).emit();
}
template<int N> void array_all(V const& v) {
	sprout::array<int, N> c = vf::arr<N>(v); sprout::array<int, N> const& k = c;
	{ Obs o; iters(o, c); frees(o, c, N); members(o, c, N); revs(o, c); nths(o, c, N); datas(o, c, N); tup<N>(o, c); o.sizes.push_back(int(c.max_size())); o.emit("array", v); }
	{ Obs o; iters(o, k); frees(o, k, N); members(o, k, N); revs(o, k); nths(o, k, N); datas(o, k, N); tup<N>(o, k);
	  std::array<int, N> s = k; o.fwd.push_back(list(s.begin(), s.end())); o.fwd.push_back(list(sprout::begin(s), sprout::end(s)));
	  sprout::array<int, N> t = sprout::to_array(s); o.fwd.push_back(list(t.begin(), t.end())); t = sprout::to_array(t); o.fwd.push_back(list(t.begin(), t.end()));
	  sprout::array<long, N> u = {{}}; u = k; o.fwd.push_back(list(u.begin(), u.end())); u = sprout::array<int, N>(k); o.fwd.push_back(list(u.begin(), u.end())); o.emit("const array", v); }
	{ std::array<int, N> s = c; Obs o; iters(o, s); frees(o, s, N, false); o.emit("std::array", v); }
}
template<int N> void carray_all(V const& v) {
	int c[N]; for (int i = 0; i < N; ++i) c[i] = v[i]; int const (&k)[N] = c;
	V a, b, d, e; Obs o; iters(o, c); iters(o, k);
	for (int i = 0; i < N; ++i) {
		a.push_back(sprout::at(c, i)); b.push_back(sprout::subscript_at(c, i)); d.push_back(*sprout::nth(c, i)); e.push_back(sprout::at(k, i));
		o.idx.push_back(i); o.idx.push_back(int(sprout::index_of(c, sprout::nth(c, i)))); o.idx.push_back(i); o.idx.push_back(int(sprout::index_of(k, sprout::nth(k, i))));
	}
	o.fwd.push_back(a); o.fwd.push_back(b); o.fwd.push_back(d); o.fwd.push_back(e); o.fwd.push_back(V(sprout::data(c), sprout::data(c) + N));
	o.fronts.push_back(sprout::front(c)); o.backs.push_back(sprout::back(c)); o.fronts.push_back(sprout::front(k)); o.backs.push_back(sprout::back(k));
	o.thr.push_back(T_THROW(sprout::at(c, N))); o.thr.push_back(T_THROW(sprout::at(k, N + 2)));
	sprout::array<int, N> t = sprout::to_array(c); o.fwd.push_back(list(t.begin(), t.end()));
	o.emit("T[N]", v);
}
template<typename C> void val_obs(C& c, V const& v) { std::size_t n = v.size(); Obs o; iters(o, c); frees(o, c, n); members(o, c, n); revs(o, c); nths(o, c, n); o.emit("valarray", v); }
template<typename C> void str_obs(C& c, V const& v) { std::size_t n = v.size(); Obs o; iters(o, c); frees(o, c, n); members(o, c, n); revs(o, c); nths(o, c, n); datas(o, c, n); o.emit("string", v); }
template<int N> void dyn_all(V const& v) {
	sprout::valarray<int, N> c(v.data(), v.size()); sprout::valarray<int, N> const& k = c; val_obs(c, v); val_obs(k, v);
	char buf[N + 1] = {}; for (std::size_t i = 0; i < v.size(); ++i) buf[i] = char(v[i] + 'a');
	V w; for (int x : v) w.push_back(x + 'a');
	sprout::basic_string<char, N> s(buf, v.size()); sprout::basic_string<char, N> const& t = s; str_obs(s, w); str_obs(t, w);
}
template<typename C> void sub_obs(C& c, V const& v, char const* kind) {
	std::size_t n = v.size(); Obs o; iters(o, c); frees(o, c, n); members(o, c, n); nths(o, c, n); datas(o, c, n); o.sizes.push_back(int(c.max_size()));
	o.sizes.push_back(int(c.to_last() - c.to_first())); o.emit(kind, v);
}
template<int N> void pit_all(int x) {
	typedef sprout::pit<sprout::array<int, N> > P; V v(N, x); P p(x); P const& k = p;
	{ Obs o; iters(o, p); members(o, p, N); revs(o, p); tup<N>(o, p); o.emit("pit", v); }
	{ Obs o; iters(o, k); members(o, k, N); revs(o, k); o.emit("const pit", v); }
	P q(x + 1); P r(x); V w(N, x + 1);
	if (N) { compare(p, q, v, w, sprout::to_hash(p) == sprout::to_hash(q)); compare(q, p, w, v, sprout::to_hash(p) == sprout::to_hash(q)); compare(p, r, v, v, sprout::to_hash(p) == sprout::to_hash(r)); }
	p.swap(q); { Obs o; iters(o, p); o.emit("pit swapped", w); } { Obs o; iters(o, q); o.emit("pit swapped", v); }
	swap(p, q); q = p; { Obs o; iters(o, q); o.emit("pit assigned", v); }
	q = x + 7; { Obs o; iters(o, q); o.emit("pit value", V(N, x + 7)); }
}
template<int N> void sized_pit_all(int n, int x, int m, int y) {
	typedef sprout::sized_pit<sprout::array<int, N> > P; V v(n, x), w(m, y); P p(n, x), q(m, y); P const& k = p;
	{ Obs o; iters(o, p); members(o, p, n); revs(o, p); o.emit("sized_pit", v); }
	{ Obs o; iters(o, k); members(o, k, n); revs(o, k); o.emit("const sized_pit", v); }
	compare(p, q, v, w, sprout::to_hash(p) == sprout::to_hash(q)); { P r(p); compare(p, r, v, v, sprout::to_hash(p) == sprout::to_hash(r)); }
	p.swap(q); { Obs o; iters(o, p); o.emit("sized_pit swapped", w); } { Obs o; iters(o, q); o.emit("sized_pit swapped", v); }
	swap(p, q); q = p; { Obs o; iters(o, q); o.emit("sized_pit assigned", v); }
	q = y; { Obs o; iters(o, q); o.emit("sized_pit value", V(n, y)); }
}
template<int N> void cmp_arrays(V const& a, V const& b) {
	sprout::array<int, N> x = vf::arr<N>(a), y = vf::arr<N>(b); compare(x, y, a, b, sprout::to_hash(x) == sprout::to_hash(y));
}

// ---- histories
template<typename C> void state(vf::Ev& e, char const* b, char const* l, char const* h, C const& c) { vf::Snap s = vf::snap(c); e(b, s.w)(l, s.l)(h, s.h); }
template<typename C> void emit2(vf::Ev& e, C const& x, C const& y) { state(e, "xb", "xl", "xh", x); state(e, "yb", "yl", "yh", y); e.emit(); }
template<typename C> void put(C& c, int path, int i, int v) {
	switch (path) {
	case 0: c[i] = v; break; case 1: c.at(i) = v; break; case 2: c.data()[i] = v; break; case 3: c.begin()[i] = v; break;
	case 4: *c.nth(i) = v; break; case 5: *sprout::next(c.begin(), i) = v; break; case 6: *sprout::prev(c.end(), int(c.size()) - i) = v; break;
	case 7: sprout::subscript_at(c, i) = v; break; case 8: sprout::at(c, i) = v; break;
	case 9: *(c.begin() + i) = v; break; default: *(c.end() - (int(c.size()) - i)) = v; break;
	}
}
template<typename C> void common_step(C& x, C& y, int op) {
	int n = int(x.size());
	switch (op) {
	case 0: { int v = vf::rnd(0, 9); vf::Ev e("fill"); e("v", v); x.fill(v); emit2(e, x, y); break; }
	case 1: { int v = vf::rnd(0, 9); vf::Ev e("fill"); e("v", v); x.assign(v); emit2(e, x, y); break; }
	case 2: { vf::Ev e("swap"); x.swap(y); emit2(e, x, y); break; }
	case 3: { vf::Ev e("swap"); swap(x, y); emit2(e, x, y); break; }
	case 4: { vf::Ev e("copy"); x = y; emit2(e, x, y); break; }
	case 5: { vf::Ev e("copy"); C t(y); x = sprout::move(t); emit2(e, x, y); break; }
	case 6: { vf::Ev e("copy"); C t(y); x = t; emit2(e, x, y); break; }
	default: if (n) { int i = vf::rnd(0, n - 1), v = vf::rnd(10, 99), p = vf::rnd(0, 10); vf::Ev e("put"); e("i", i)("v", v)("p", p); put(x, p, i, v); emit2(e, x, y); } break;
	}
}
template<int N> void array_history(int len) {
	sprout::array<int, N> x = vf::arr<N>(vf::rnd_seq(10, N)), y = vf::arr<N>(vf::rnd_seq(10, N));
	vf::begin_history(); { vf::Ev e("init"); emit2(e, x, y); }
	for (int i = 0; i < len; ++i) common_step(x, y, vf::rnd(0, 10));
	vf::end_history();
}
template<int N> void sub_history(int len) {
	typedef sprout::sub_array<sprout::array<int, N> > C;
	int a = vf::rnd(0, N), b = vf::rnd(a, N), c = vf::rnd(0, N), d = vf::rnd(c, N);
	C x = sprout::sub_copy(vf::arr<N>(vf::rnd_seq(10, N)), a, b), y = sprout::sub_copy(vf::arr<N>(vf::rnd_seq(10, N)), c, d);
	vf::begin_history(); { vf::Ev e("init"); emit2(e, x, y); }
	for (int i = 0; i < len; ++i) {
		int l = int(x.to_first()), h = int(x.to_last()); int v = vf::rnd(0, 9);
		switch (vf::rnd(0, 20)) {
		case 0: if (h < N) { vf::Ev e("push_back"); e("v", v); x.push_back(v); emit2(e, x, y); } break;
		case 1: if (h < N) { vf::Ev e("push_back"); e("v", v); int const w = v; x.push_back(w); emit2(e, x, y); } break;
		case 2: if (l < h) { vf::Ev e("pop_back"); x.pop_back(); emit2(e, x, y); } break;
		case 3: if (l < h) { vf::Ev e("drop_back"); x.drop_back(); emit2(e, x, y); } break;
		case 4: if (l > 0) { vf::Ev e("push_front"); e("v", v); x.push_front(v); emit2(e, x, y); } break;
		case 5: if (l > 0) { vf::Ev e("push_front"); e("v", v); int const w = v; x.push_front(w); emit2(e, x, y); } break;
		case 6: if (l < h) { vf::Ev e("pop_front"); x.pop_front(); emit2(e, x, y); } break;
		case 7: if (l < h) { vf::Ev e("drop_front"); x.drop_front(); emit2(e, x, y); } break;
		case 8: { int f = vf::rnd(0, N), t = vf::rnd(f, N); vf::Ev e("window"); e("f", f)("t", t); x.window(f, t); emit2(e, x, y); break; }
		case 9: { int f = vf::rnd(0, N); vf::Ev e("window"); e("f", f)("t", N); x.window(f); emit2(e, x, y); break; }
		case 10: { int f = vf::rnd(0, N), t = vf::rnd(f, N); vf::Ev e("offset"); e("f", f - l)("t", t - h); x.offset(f - l, t - h); emit2(e, x, y); break; }
		case 11: { int f = vf::rnd(0, N), t = vf::rnd(f, N); vf::Ev e("window"); e("f", f)("t", t); C const& k = x; C z = vf::rnd(0, 1) ? k.window(f, t) : k.cwindow(f, t); x = z; emit2(e, x, y); break; }
		case 12: { int f = vf::rnd(0, N), t = vf::rnd(f, N); vf::Ev e("offset"); e("f", f - l)("t", t - h); C const& k = x; C z = vf::rnd(0, 1) ? k.offset(f - l, t - h) : k.coffset(f - l, t - h); x = z; emit2(e, x, y); break; }
		case 13: { int n = h - l, f = vf::rnd(0, n), t = vf::rnd(f, n); vf::Ev e("narrow"); e("f", f)("t", t); C z(x, f, t); x = z; emit2(e, x, y); break; }
		case 14: { int n = h - l, f = vf::rnd(0, n), t = vf::rnd(f, n); vf::Ev e("narrow"); e("f", f)("t", t); C const& k = x; C z(k, k.begin() + f, k.begin() + t); x = z; emit2(e, x, y); break; }
		case 15: { int n = h - l, f = vf::rnd(0, n), t = vf::rnd(f, n); vf::Ev e("narrow"); e("f", f)("t", t); C z = sprout::sub_copy(x, f, t); x = z; emit2(e, x, y); break; }
		default: common_step(x, y, vf::rnd(0, 12)); break;
		}
	}
	vf::end_history();
}
int main(int argc, char** argv) {
	vf::init(argc, argv);
#if PART == 1
	array_all<0>(V());
	vf::all_seqs(3, vf::thorough() ? 5 : 4, [](V const& v) {
		switch (v.size()) {
		case 1: array_all<1>(v); carray_all<1>(v); break; case 2: array_all<2>(v); carray_all<2>(v); break; case 3: array_all<3>(v); carray_all<3>(v); break;
		case 4: array_all<4>(v); carray_all<4>(v); break; case 5: array_all<5>(v); carray_all<5>(v); break; default: break;
		}
		dyn_all<5>(v); if (v.size() <= 3) dyn_all<3>(v); if (v.empty()) dyn_all<1>(v);
	});
	vf::all_seqs(3, 3, [](V const& a) { vf::all_seqs(3, 3, [&](V const& b) {
		if (a.size() == b.size()) switch (a.size()) { case 0: cmp_arrays<0>(a, b); break; case 1: cmp_arrays<1>(a, b); break; case 2: cmp_arrays<2>(a, b); break; default: cmp_arrays<3>(a, b); break; }
		
		sprout::array<int, 5> p = vf::framed<5>(a, 1), q = vf::framed<5>(b, 2);
		auto s = sprout::sub(p, 1, 1 + int(a.size())); auto t = sprout::sub(q, 2, 2 + int(b.size())); compare(s, t, a, b, sprout::to_hash(s) == sprout::to_hash(t));
	}); });
#elif PART == 2
	for (int l = 0; l <= 2; ++l) vf::all_seqs(3, 3, [&](V const& v) {
		int h = l + int(v.size()); sprout::array<int, 6> a = vf::framed<6>(v, l); sprout::array<int, 6> const& ca = a;
		{ auto s = sprout::sub(a, l, h); sub_obs(s, v, "sub ref"); auto const& k = s; sub_obs(k, v, "sub ref"); }
		{ auto s = sprout::sub(ca, l, h); sub_obs(s, v, "sub cref"); }
		{ auto s = sprout::sub_copy(a, l, h); sub_obs(s, v, "sub copy"); auto const& k = s; sub_obs(k, v, "sub copy"); }
		{ auto s = sprout::sub(ca, ca.begin() + l, ca.begin() + h); sub_obs(s, v, "sub iterators"); }
		{ auto s = sprout::sub_copy(ca, ca.begin() + l, ca.begin() + h); auto const& k = s; sub_obs(k, v, "sub iterators"); }
		{ auto s = sprout::sub_window(a, l, h); sub_obs(s, v, "sub_window"); auto t = sprout::sub_offset(a, l, h - 6); sub_obs(t, v, "sub_offset"); }
		{ auto w = sprout::sub(a, 0, 6); auto s = sprout::sub_window(w, l, h); sub_obs(s, v, "sub_window sub"); auto t = sprout::sub(w, l, h); sub_obs(t, v, "sub of sub"); }
		{ auto w = sprout::sub(a, 1, 5); auto s = sprout::sub_offset(w, l - 1, h - 5); sub_obs(s, v, "sub_offset sub"); if (l) { auto t = sprout::sub_window_copy(w, l - 1, h - 1); sub_obs(t, v, "sub_window_copy sub"); auto r = sprout::sub_window(w, l - 1, h - 1); sub_obs(r, v, "sub_window sub"); } auto u = sprout::sub_offset_copy(w, l - 1, h - 5); sub_obs(u, v, "sub_offset_copy sub"); }
		if (l == 0 && v.size() == 3) { auto s = sprout::sub(a, 1); V w(v.begin() + 1, v.end()); for (int i = 3; i < 6; ++i) w.push_back(a[i]); sub_obs(s, w, "sub tail"); }
	});
	for (int x = 0; x < 4; ++x) { pit_all<1>(x); pit_all<2>(x); pit_all<5>(x); }
	for (int n = 0; n <= 4; ++n) for (int x = 0; x < 3; ++x) for (int m = 0; m <= 4; ++m) for (int y = 0; y < 3; ++y) sized_pit_all<4>(n, x, m, y);
#else
	int k = vf::thorough() ? 4000 : 500;
	for (int i = 0; i < k; ++i) { array_history<1>(20); array_history<3>(25); array_history<6>(30); sub_history<1>(25); sub_history<3>(40); sub_history<7>(60); array_history<0>(8); }
#endif
	return vf::done();
}
