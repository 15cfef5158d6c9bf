// C13: sprout::basic_string — queries (parts 1,2), construction/concatenation (part 3), histories of edits (part 4).
#include "strs.hpp"
#include "iters.hpp"
#include <sprout/algorithm/string.hpp>
#include <sprout/functional/hash.hpp>
#include <functional>
#include <sstream>
#include <stdexcept>
template<typename C, std::size_t N> using S = sprout::basic_string<C, N>;

template<typename C, std::size_t N, std::size_t M> void finds(V const& x, V const& t, int p) {
	S<C, N> const s = mk<C, N>(x); S<C, M> const u = mk<C, M>(t); auto z = stdstr<C>(t); C const* q = z.c_str(); std::size_t P = ps(p), n = t.size();
	auto ev = [&](char const* how, V r) { vf::tag() = how; vf::Ev e("q"); e("s", x)("t", t)("p", p)("r", r); e.emit(); };
	ev("str", {pos(s.find(u, P)), pos(s.rfind(u, P)), pos(s.find_first_of(u, P)), pos(s.find_last_of(u, P)), pos(s.find_first_not_of(u, P)), pos(s.find_last_not_of(u, P))});
	z += C('a'); q = z.c_str();
	ev("ptr,n", {pos(s.find(q, P, n)), pos(s.rfind(q, P, n)), pos(s.find_first_of(q, P, n)), pos(s.find_last_of(q, P, n)), pos(s.find_first_not_of(q, P, n)), pos(s.find_last_not_of(q, P, n))});
	z = stdstr<C>(t); q = z.c_str();
	ev("ptr", {pos(s.find(q, P)), pos(s.rfind(q, P)), pos(s.find_first_of(q, P)), pos(s.find_last_of(q, P)), pos(s.find_first_not_of(q, P)), pos(s.find_last_not_of(q, P))});
	if (n == 1) { C c = C(t[0]); ev("char", {pos(s.find(c, P)), pos(s.rfind(c, P)), pos(s.find_first_of(c, P)), pos(s.find_last_of(c, P)), pos(s.find_first_not_of(c, P)), pos(s.find_last_not_of(c, P))}); }
	if (p == 0) {	// default positions
		vf::Ev e("q0"); vf::tag() = "default"; e("s", x)("t", t)("r", V{pos(s.find(u)), pos(s.rfind(u)), pos(s.find_first_of(u)), pos(s.find_last_of(u)), pos(s.find_first_not_of(u)), pos(s.find_last_not_of(u))}); e.emit();
		vf::Ev f("q0"); f("s", x)("t", t)("r", V{pos(s.find(q)), pos(s.rfind(q)), pos(s.find_first_of(q)), pos(s.find_last_of(q)), pos(s.find_first_not_of(q)), pos(s.find_last_not_of(q))}); f.emit();
		if (n == 1) { C c = C(t[0]); vf::Ev g("q0"); g("s", x)("t", t)("r", V{pos(s.find(c)), pos(s.rfind(c)), pos(s.find_first_of(c)), pos(s.find_last_of(c)), pos(s.find_first_not_of(c)), pos(s.find_last_not_of(c))}); g.emit(); }
	}
}
template<typename F> int cmp(F f) { try { return sgn(f()); } catch (std::out_of_range const&) { return 9; } }
template<typename C, std::size_t N, std::size_t M> void compares(V const& x, V const& t) {
	S<C, N> const s = mk<C, N>(x); S<C, M> const u = mk<C, M>(t); auto z = stdstr<C>(t); C const* q = z.c_str();
	vf::tag() = "compare";
	auto ev = [&](int p1, int n1, int p2, int n2, int r) { vf::Ev e("cmp"); e("s", x)("t", t)("p1", p1)("n1", n1)("p2", p2)("n2", n2)("r", r); e.emit(); };
	ev(0, 1000, 0, 1000, cmp([&] { return s.compare(u); })); ev(0, 1000, 0, 1000, cmp([&] { return s.compare(q); })); ev(0, 1000, 0, 1000, cmp([&] { return s.compare(z.c_str()); }));
	for (int k = 0; k < 3; ++k) {
		int p1 = vf::rnd(0, int(x.size()) + 1), n1 = vf::rnd(0, 3) ? vf::rnd(0, 4) : 1000, p2 = vf::rnd(0, int(t.size()) + 1), n2 = vf::rnd(0, 3) ? vf::rnd(0, 4) : 1000;
		ev(p1, n1, 0, 1000, cmp([&] { return s.compare(p1, ps(n1), u); })); ev(p1, n1, 0, 1000, cmp([&] { return s.compare(p1, ps(n1), q); }));
		ev(p1, n1, p2, n2, cmp([&] { return s.compare(p1, ps(n1), u, p2, ps(n2)); }));
		int m = std::min(n2, int(t.size())); ev(p1, n1, 0, m, cmp([&] { return s.compare(p1, ps(n1), q, std::size_t(m)); }));
	}
	auto rel = [&](bool a, bool b, bool c, bool d, bool e1, bool f) { vf::Ev e("rel"); e("s", x)("t", t)("r", std::vector<int>{a, b, c, d, e1, f}); e.emit(); };
	rel(s == u, s != u, s < u, s > u, s <= u, s >= u);
	vf::tag() = "rel str,ptr"; rel(s == q, s != q, s < q, s > q, s <= q, s >= q);
	vf::tag() = "rel ptr,str"; { C const* w = stdstr<C>(x).c_str(); auto sx = stdstr<C>(x); w = sx.c_str(); rel(w == u, w != u, w < u, w > u, w <= u, w >= u); }
	vf::Ev h("hash"); bool eq = sprout::to_hash(s) == sprout::to_hash(mk<C, N>(t.size() <= N ? t : x)); h("s", x)("t", t.size() <= N ? t : x)("r", eq); h.emit();
}
template<typename C, std::size_t N> void substrs(V const& x) {
	S<C, N> const s = mk<C, N>(x); vf::tag() = "substr";
	for (int p = 0; p <= int(x.size()) + 1; ++p) for (int n : {0, 1, 2, 1000, 3}) for (int form = 0; form < 5; ++form) {
		V r; bool th = false;
		try {
			if (form == 0) r = content(s.substr(p, ps(n)));
			else if (form == 1) { if (n != 1000) continue; r = content(s.substr(p)); }
			else if (form == 2) r = content(S<C, N>(s, p, ps(n)));
			else if (form == 3) r = content(S<C, N + 2>(s, p, ps(n)));
			else { C buf[64] = {}; std::size_t k = s.copy(buf, ps(n), p); if (buf[k] != C()) r = {-2}; else for (std::size_t i = 0; i < k; ++i) r.push_back(code(buf[i])); }
		} catch (std::out_of_range const&) { th = true; }
		vf::Ev e("sub"); e("s", x)("p", p)("n", n)("r", r)("th", th); e.emit();
	}
	if (x.size() >= 1) { vf::Ev e("sub"); e("s", x)("p", 0)("n", 1000)("r", content(s.substr()))("th", false); e.emit(); }
}
template<typename C> void query_alpha(V& v) { for (int& c : v) c = c == 0 ? 'a' : c == 1 ? 'b' : c == 2 ? (sizeof(C) == 1 ? 200 : 0x3042) : '~'; }
template<typename C> void queries(int n) {
	vf::all_seqs(2, 4, [&](V x0) { vf::all_seqs(2, 2, [&](V t0) { V x(x0), t(t0); query_alpha<C>(x); query_alpha<C>(t); for (int p = 0; p <= int(x.size()) + 1; ++p) finds<C, 4, 2>(x, t, p); finds<C, 4, 2>(x, t, 1000); compares<C, 4, 2>(x, t); }); });
	for (int i = 0; i < n; ++i) {
		V x = vf::rnd_seq(3, vf::rnd(0, 10)), t = vf::rnd_seq(3, vf::rnd(0, 5)); query_alpha<C>(x); query_alpha<C>(t);
		if (vf::rnd(0, 3) == 0 && x.size() >= t.size()) std::copy(t.begin(), t.end(), x.begin() + vf::rnd(0, int(x.size() - t.size())));
		finds<C, 10, 5>(x, t, vf::rnd(0, 4) ? vf::rnd(0, int(x.size()) + 1) : 1000); compares<C, 10, 5>(x, t); if (i % 4 == 0) { V y(x); if (!y.empty() && vf::rnd(0, 1)) y.back() = 'c'; if (vf::rnd(0, 1) && !y.empty()) y.pop_back(); compares<C, 10, 12>(x, y); }
		if (i % 6 == 0) substrs<C, 10>(x);
	}
	vf::all_seqs(2, 3, [&](V x) { query_alpha<C>(x); substrs<C, 3>(x); });
}
#if PART == 3
template<std::size_t N> struct arr1 { char a[N]; };
template<typename C, std::size_t N, std::size_t M> void builds(V const& x, V const& t) {
	S<C, N> const s = mk<C, N>(x); S<C, M> const u = mk<C, M>(t); auto zx = stdstr<C>(x), zt = stdstr<C>(t);
	C ax[N + 1] = {}; std::copy(zx.begin(), zx.end(), ax); C at[M + 1] = {}; std::copy(zt.begin(), zt.end(), at);
	auto ev = [&](char const* op, char const* how, V r, bool th = false) { vf::tag() = how; vf::Ev e(op); e("s", x)("t", t)("r", r)("th", th)("cap", int(N)); e.emit(); };
	ev("cat", "s+s", content(s + u)); ev("cat", "s+arr", content(s + at)); ev("cat", "arr+s", content(ax + u));
	if (t.size() == 1) ev("cat", "s+c", content(s + C(t[0]))); if (x.size() == 1) ev("cat", "c+s", content(C(x[0]) + u));
	auto guard = [&](char const* op, char const* how, std::function<V()> f) { V r; bool th = false; try { r = f(); } catch (std::length_error const&) { th = true; } ev(op, how, r, th); };
	guard("shl", "s<<s", [&] { return content(s << u); }); guard("shl", "s<<p", [&] { return content(s << zt.c_str()); }); guard("shr", "s>>s", [&] { return content(s >> u); }); guard("shr", "s>>p", [&] { return content(s >> zt.c_str()); });
	if (t.size() == 1) { guard("shl", "s<<c", [&] { return content(s << C(t[0])); }); guard("shr", "s>>c", [&] { return content(s >> C(t[0])); }); }
	if (t.size() == 2) { guard("shl", "s<<il", [&] { return content(sprout::operator<<(s, {C(t[0]), C(t[1])})); }); guard("shr", "s>>il", [&] { return content(sprout::operator>>(s, {C(t[0]), C(t[1])})); }); }
}
template<typename C, std::size_t N> void ctors(V const& x) {
	auto z = stdstr<C>(x); C a[N + 1] = {}; if (x.size() <= N) std::copy(z.begin(), z.end(), a);
	auto ev = [&](char const* how, int n, std::function<V()> f) { vf::tag() = how; V r; bool th = false; try { r = f(); } catch (std::length_error const&) { th = true; } vf::Ev e("make"); e("s", x)("n", n)("cap", int(N))("r", r)("th", th); e.emit(); };
	int L = int(x.size());
	ev("ptr", L, [&] { return content(S<C, N>(z.c_str())); }); ev("from_c_str", L, [&] { return content(S<C, N>::from_c_str(z.c_str())); }); ev("from_c_str n", L, [&] { return content(S<C, N>::from_c_str(z.c_str(), z.size())); });
	ev("string_from_c_str", L, [&] { return content(sprout::string_from_c_str<N>(z.c_str())); }); ev("string_from_c_str n", L, [&] { return content(sprout::string_from_c_str<N>(z.c_str(), z.size())); });
	for (int n = 0; n <= L; ++n) ev("ptr,n", n, [&] { return content(S<C, N>(z.c_str(), n)); });
	ev("it ra", L, [&] { return content(S<C, N>(z.begin(), z.end())); });
	ev("it fwd", L, [&] { typedef vf::cat_iter<C const*, std::forward_iterator_tag> I; return content(S<C, N>(I(z.data()), I(z.data() + z.size()))); });
	ev("it in", L, [&] { typedef vf::cat_iter<C const*, std::input_iterator_tag> I; return content(S<C, N>(I(z.data()), I(z.data() + z.size()))); });
	if (L == 3) ev("il", L, [&] { return content(S<C, N>{C(x[0]), C(x[1]), C(x[2])}); });
	if (L <= int(N)) {
		ev("arr", L, [&] { return content(S<C, N>(a)); }); for (int n = 0; n <= L; ++n) ev("arr,n", n, [&] { return content(S<C, N>(a, n)); });
		ev("to_string", L, [&] { return content(sprout::to_string(a)); }); ev("copy", L, [&] { S<C, N> s = mk<C, N>(x); S<C, N> t(s); return content(t); }); ev("move", L, [&] { S<C, N> s = mk<C, N>(x); S<C, N> t(sprout::move(s)); return content(t); });
		ev("wider", L, [&] { S<C, N> s = mk<C, N>(x); S<C, N + 3> t(s); return content(t); }); ev("stretch", L, [&] { return content(sprout::stretch<N + 2>(mk<C, N>(x))); }); ev("stretch arr", L, [&] { return content(sprout::stretch<N + 2>(a)); });
		ev("shrink same", L, [&] { S<C, N> s = mk<C, N>(x); S<C, N> const& r = sprout::shrink(s); return content(r); }); ev("shrink to wider", L, [&] { S<C, N> s = mk<C, N>(x); S<C, N + 2> r = sprout::shrink(s); return content(r); });
		ev("std", L, [&] { S<C, N> s = mk<C, N>(x); return seqof(std::basic_string<C>(s.begin(), s.end())); });
		ev("view", L, [&] { S<C, N> s = mk<C, N>(x); sprout::basic_string_view<C> v = s; return seqof(v); });
		vf::tag() = "shrink"; for (int k = 0; k < 3; ++k) { S<C, N> s = mk<C, N>(x); V r; int cap = 0; if (k == 0) { cap = 2; r = content(sprout::shrink<2>(s)); } else if (k == 1) { cap = 0; r = content(sprout::shrink<0>(s)); } else { cap = 1; S<C, 1> q = sprout::shrink(s); r = content(q); } vf::Ev e("shrink"); e("s", x)("cap", cap)("r", r); e.emit(); }
	}
	for (int n = 0; n <= int(N) + 1; ++n) { V f(n, 'q'); vf::tag() = "n,c"; V r; bool th = false; try { r = content(S<C, N>(n, C('q'))); } catch (std::length_error const&) { th = true; } vf::Ev e("make"); e("s", f)("n", n)("cap", int(N))("r", r)("th", th); e.emit(); }
}
template<typename C> void joins() {
	typedef S<C, 3> T;
	for (int i = 0; i < 150; ++i) {
		std::vector<V> v(3); std::string js = "["; for (int k = 0; k < 3; ++k) { v[k] = vf::rnd_seq(3, vf::rnd(0, 3), 'a'); js += (k ? "," : "") + vf::js(v[k]); } vf::raw w; w.s = js + "]";
		sprout::array<T, 3> a = {{mk<C, 3>(v[0]), mk<C, 3>(v[1]), mk<C, 3>(v[2])}}; V sep = vf::rnd_seq(2, vf::rnd(0, 2), 'x'); S<C, 2> sp = mk<C, 2>(sep); C ca[3] = {C(','), C(' '), C()};
		vf::tag() = "join"; { vf::Ev e("join"); e("v", w)("sep", V())("r", content(sprout::algorithm::join(a))); e.emit(); } { vf::Ev e("join"); e("v", w)("sep", sep)("r", content(sprout::algorithm::join(a, sp))); e.emit(); }
		{ vf::Ev e("join"); e("v", w)("sep", V{',', ' '})("r", content(sprout::algorithm::join(a, ca))); e.emit(); }
	}
}
template<typename C> void io() {
	typedef S<C, 5> T;
	for (int i = 0; i < 300; ++i) {
		V in = vf::rnd_seq(3, vf::rnd(0, 9), 'a'); for (int& c : in) if (vf::rnd(0, 6) == 0) c = ' '; V old = vf::rnd_seq(2, vf::rnd(0, 5), 'x'); int w = vf::rnd(0, 2) ? 0 : vf::rnd(1, 6);
		T s = mk<C, 5>(old); std::basic_istringstream<C> is(stdstr<C>(in)); if (w) is.width(w); vf::tag() = "io"; vf::Ev e("in"); e("i", in)("w", w)("cap", 5); is >> s; e("fail", is.fail())("r", content(s)); is.clear(); std::basic_string<C> rest; std::getline(is, rest, C()); e("rest", int(rest.size())); e.emit();
		std::basic_ostringstream<C> os; os << mk<C, 9>(in); vf::Ev f("out"); f("s", in)("r", seqof(os.str())); f.emit();
	}
}
#endif
#if PART == 4
template<typename C, std::size_t N, std::size_t M> void history(int len) {
	S<C, N> x; S<C, M> y; vf::begin_history(); { vf::Ev e("init"); e("n", int(N))("m", int(M))("x", content(x))("y", content(y)); e.emit(); }
	typedef vf::cat_iter<C const*, std::input_iterator_tag> In; typedef vf::cat_iter<C const*, std::forward_iterator_tag> Fw;
	for (int step = 0; step < len; ++step) {
		V t = vf::rnd_seq(3, vf::rnd(0, 2) ? vf::rnd(0, 3) : vf::rnd(0, int(N) + 1), 'a'); if (vf::rnd(0, 3) == 0) for (int& c : t) if (c == 'b') c = sizeof(C) == 1 ? 233 : 0x20ac;
		auto z = stdstr<C>(t); int n = vf::rnd(0, int(N) + 1), p = vf::rnd(0, int(y.size()) + 1), k = vf::rnd(0, 3) ? vf::rnd(0, 3) : 1000; C ch = C('a' + vf::rnd(0, 3));
		int op = vf::rnd(0, 30), w = vf::rnd(0, 4); bool th = false; char const* o = ""; vf::Ev e("?"); std::string ops; e.s.clear();
		auto start = [&](char const* name) { e.s = std::string("{\"o\":\"") + name + "\""; vf::current() = e.s; };
		try { switch (op) {
		case 0: start("assign"); e("t", t); if (w == 0) x.assign(z.c_str()); else if (w == 1) x.assign(z.c_str(), z.size()); else if (w == 2) x = z.c_str(); else if (w == 3) x.assign(z.begin(), z.end()); else x.assign(Fw(z.data()), Fw(z.data() + z.size())); break;
		case 1: start("append"); e("t", t); if (w == 0) x.append(z.c_str()); else if (w == 1) x.append(z.c_str(), z.size()); else if (w == 2) x <<= z.c_str(); else if (w == 3) x.append(z.begin(), z.end()); else x.append(Fw(z.data()), Fw(z.data() + z.size())); break;
		case 2: start("prepend"); e("t", t); x >>= z.c_str(); break;
		case 3: start("assign"); e("t", V(n, int(ch))); x.assign(std::size_t(n), ch); break;
		case 4: start("append"); e("t", V(n, int(ch))); x.append(std::size_t(n), ch); break;
		case 5: case 6: start("append"); e("t", V(1, int(ch))); if (w < 2) x.push_back(ch); else x <<= ch; break;
		case 7: start("prepend"); e("t", V(1, int(ch))); x >>= ch; break;
		case 8: if (x.empty()) continue; start("pop"); x.pop_back(); break;
		case 9: case 10: start("resize"); e("n", n)("c", int(ch)); x.resize(n, ch); break;
		case 11: start("clear"); x.clear(); break;
		case 12: if (x.empty()) continue; { int i = vf::rnd(0, int(x.size()) - 1); start("put"); e("i", i)("c", int(ch)); if (w == 0) x[i] = ch; else if (w == 1) x.at(i) = ch; else if (w == 2) *(x.begin() + i) = ch; else if (w == 3) x.data()[i] = ch; else x.c_array()[i] = ch; } break;
		case 13: start("assigny"); if (w < 2) x = y; else x.assign(y); break;
		case 14: start("assignsub"); e("p", p)("k", k); x.assign(y, p, ps(k)); break;
		case 15: start("appendy"); if (w < 2) x.append(y); else x <<= y; break;
		case 16: start("appendsub"); e("p", p)("k", k); x.append(y, p, ps(k)); break;
		case 17: start("prependy"); x >>= y; break;
		case 18: start("assign"); e("t", V(1, int(ch))); x = ch; break;
		case 19: start("assign"); { V q{int(ch), 'z'}; e("t", q); if (w < 2) x = {ch, C('z')}; else x.assign({ch, C('z')}); } break;
		case 20: start("append"); { V q{int(ch), 'z'}; e("t", q); if (w < 2) x <<= {ch, C('z')}; else x.append({ch, C('z')}); } break;
		case 21: start("prepend"); { V q{int(ch), 'z'}; e("t", q); x >>= {ch, C('z')}; } break;
		case 22: start("swap"); { S<C, N> a; if (y.size() > N) { continue; } a = y; sprout::swap(x, a); if (a.size() > M) { sprout::swap(x, a); continue; } y = a; } break;
		case 23: start("self"); e("p", p)("k", k); p = vf::rnd(0, int(x.size())); start("selfassign"); e("p", p)("k", k); x.assign(x, p, ps(k)); break;
		case 24: start("selfappend"); p = vf::rnd(0, int(x.size())); e("p", p)("k", k); if (w < 3) x.append(x, p, ps(k)); else { start("selfappend"); e("p", 0)("k", 1000); x.append(x); } break;
		case 25: start("atthrow"); th = true; { bool hit = false; try { if (w < 2) x.at(x.size() + vf::rnd(0, 2)) = ch; else (void)((S<C, N> const&)x).at(x.size()); } catch (std::out_of_range const&) { hit = true; } th = hit; } break;
		case 26: start("substr"); { V q; p = vf::rnd(0, int(x.size()) + 1); e("p", p)("k", k); x = x.substr(p, ps(k)); } break;
		case 27: if (t.size() > N) continue; start("assign"); e("t", t); x.assign(In(z.data()), In(z.data() + z.size())); break;
		case 28: if (t.size() + x.size() > N) continue; start("append"); e("t", t); x.append(In(z.data()), In(z.data() + z.size())); break;
		case 29: start("swapself"); { S<C, N> a = x; x.clear(); x.swap(a); if (!a.empty()) x.clear(); } break;
		default: start("assign"); e("t", t); x = z.c_str(); break;
		} } catch (std::length_error const&) { th = true; } catch (std::out_of_range const&) { th = true; }
		e("th", th)("x", content(x))("y", content(y)); e.emit();
		if (vf::rnd(0, 4) == 0) { V q = vf::rnd_seq(3, vf::rnd(0, int(M)), 'a'); y = mk<C, M>(q); vf::Ev f("sety"); f("t", q)("x", content(x))("y", content(y)); f.emit(); }
	}
	// overflow through an input iterator: must throw, and must not leave the object too long
	V t = vf::rnd_seq(2, int(N) + 1 + vf::rnd(0, 1), 'a'); auto z = stdstr<C>(t); bool th = false;
	{ vf::Ev e("over"); try { if (vf::rnd(0, 1)) x.assign(In(z.data()), In(z.data() + z.size())); else x.append(In(z.data()), In(z.data() + z.size())); } catch (std::length_error const&) { th = true; } e("th", th)("sz", x.size() <= N); e.emit(); }
	vf::end_history();
}
#endif
int main(int ac, char** av) {
	vf::init(ac, av); int n = vf::thorough() ? 4000 : 250;
#if PART == 1
	queries<char>(n);
#elif PART == 2
	queries<wchar_t>(n / 2); queries<char16_t>(n / 3); queries<char32_t>(n / 3);
#elif PART == 3
	vf::all_seqs(2, 4, [&](V x) { for (int& c : x) c += 'a'; ctors<char, 4>(x); ctors<char, 3>(x); ctors<wchar_t, 4>(x); ctors<char, 5>(x); });
	vf::all_seqs(2, 3, [&](V x) { for (int& c : x) c += 'a'; vf::all_seqs(2, 2, [&](V t) { for (int& c : t) c += 'c'; builds<char, 3, 2>(x, t); builds<char, 5, 4>(x, t); builds<wchar_t, 4, 2>(x, t); }); });
	joins<char>(); joins<wchar_t>(); io<char>(); io<wchar_t>();
#else
	for (int i = 0; i < n / 3; ++i) { history<char, 6, 4>(40); history<char, 8, 8>(40); history<wchar_t, 5, 9>(40); history<char, 1, 3>(15); history<char, 0, 2>(12); history<char16_t, 7, 3>(30); }
#endif
	return vf::done();
}
