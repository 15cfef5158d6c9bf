// C14: string_view queries on every kind of buffer (part 1: char/char16_t, part 2: wchar_t), the C string functions (part 3: char, part 4: wide),
// histories of view mutations (part 5).
#include "strs.hpp"
#include <sprout/cstring.hpp>
#include <sprout/cwchar.hpp>
#include <sprout/functional/hash.hpp>
#include <sstream>
#include <stdexcept>
template<typename C> using W = sprout::basic_string_view<C>;
// characters viewed; checked for internal consistency
template<typename C> V seen(W<C> const& s) {
	V r = seqof(s); bool ok = r.size() == s.size() && s.size() == s.length() && s.empty() == r.empty() && s.max_size() >= s.size();
	for (std::size_t i = 0; ok && i < r.size(); ++i) ok = code(s[i]) == r[i] && code(s.data()[i]) == r[i] && code(s.at(i)) == r[i] && code(s.begin()[i]) == r[i];
	V b; for (auto it = s.rbegin(); it != s.rend(); ++it) b.push_back(code(*it));
	V d; for (auto it = s.cbegin(); it != s.cend(); ++it) d.push_back(code(*it));
	V g; for (auto it = s.crbegin(); it != s.crend(); ++it) g.push_back(code(*it));
	ok = ok && V(b.rbegin(), b.rend()) == r && d == r && g == b;
	if (ok && !r.empty()) ok = code(s.front()) == r[0] && code(s.back()) == r.back();
	bool th = false; try { (void)s.at(s.size()); } catch (std::out_of_range const&) { th = true; }
	return ok && th ? r : V{-1};
}
// a view of the middle of a buffer: neighbours are legal characters, no terminator follows
template<typename C> struct Buf { std::vector<C> m; std::size_t n; Buf(V const& v) : n(v.size()) { m.push_back(C('a')); for (int c : v) m.push_back(C(c)); m.push_back(C('a')); m.push_back(C('b')); } W<C> view() const { return W<C>(m.data() + 1, n); } };
template<typename C> void query_alpha(V& v) { for (int& c : v) c = c == 0 ? 'a' : c == 1 ? 'b' : c == 2 ? (sizeof(C) == 1 ? 200 : 0x3042) : '~'; }
#if PART <= 2
template<typename C> void finds(V const& x, V const& t, int p) {
	Buf<C> bx(x), bt(t); W<C> const s = bx.view(), u = bt.view(); auto z = stdstr<C>(t); C const* q = z.c_str(); std::size_t P = ps(p), n = t.size();
	auto ev = [&](char const* how, V r) { vf::tag() = how; vf::Ev e("q"); e("s", x)("t", t)("p", p)("r", r); e.emit(); };
	ev("view", {pos(s.find(u, P)), pos(s.rfind(u, P)), pos(s.find_first_of(u, P)), pos(s.find_last_of(u, P)), pos(s.find_first_not_of(u, P)), pos(s.find_last_not_of(u, P))});
	z += C('a'); q = z.c_str();
	ev("ptr,n", {pos(s.find(q, P, n)), pos(s.rfind(q, P, n)), pos(s.find_first_of(q, P, n)), pos(s.find_last_of(q, P, n)), pos(s.find_first_not_of(q, P, n)), pos(s.find_last_not_of(q, P, n))});
	ev("iter,n", {pos(s.find(u.begin(), P, n)), pos(s.rfind(u.begin(), P, n)), pos(s.find_first_of(u.begin(), P, n)), pos(s.find_last_of(u.begin(), P, n)), pos(s.find_first_not_of(u.begin(), P, n)), pos(s.find_last_not_of(u.begin(), P, n))});
	z = stdstr<C>(t); q = z.c_str();
	ev("ptr", {pos(s.find(q, P)), pos(s.rfind(q, P)), pos(s.find_first_of(q, P)), pos(s.find_last_of(q, P)), pos(s.find_first_not_of(q, P)), pos(s.find_last_not_of(q, P))});
	W<C> const o(q);
	ev("iter", {pos(s.find(o.begin(), P)), pos(s.rfind(o.begin(), P)), pos(s.find_first_of(o.begin(), P)), pos(s.find_last_of(o.begin(), P)), pos(s.find_first_not_of(o.begin(), P)), pos(s.find_last_not_of(o.begin(), P))});
	if (n == 1) { C c = C(t[0]); ev("char", {pos(s.find(c, P)), pos(s.rfind(c, P)), pos(s.find_first_of(c, P)), pos(s.find_last_of(c, P)), pos(s.find_first_not_of(c, P)), pos(s.find_last_not_of(c, P))}); }
	if (p == 0) {
		auto e0 = [&](char const* how, V r) { vf::tag() = how; vf::Ev e("q0"); e("s", x)("t", t)("r", r); e.emit(); };
		e0("def", {pos(s.find(u)), pos(s.rfind(u)), pos(s.find_first_of(u)), pos(s.find_last_of(u)), pos(s.find_first_not_of(u)), pos(s.find_last_not_of(u))});
		e0("def ptr", {pos(s.find(q)), pos(s.rfind(q)), pos(s.find_first_of(q)), pos(s.find_last_of(q)), pos(s.find_first_not_of(q)), pos(s.find_last_not_of(q))});
		e0("def iter", {pos(s.find(o.begin())), pos(s.rfind(o.begin())), pos(s.find_first_of(o.begin())), pos(s.find_last_of(o.begin())), pos(s.find_first_not_of(o.begin())), pos(s.find_last_not_of(o.begin()))});
		if (n == 1) { C c = C(t[0]); e0("def char", {pos(s.find(c)), pos(s.rfind(c)), pos(s.find_first_of(c)), pos(s.find_last_of(c)), pos(s.find_first_not_of(c)), pos(s.find_last_not_of(c))}); }
	}
}
template<typename F> int cmp(F f) { try { return sgn(f()); } catch (std::out_of_range const&) { return 9; } }
template<typename C> void compares(V const& x, V const& t) {
	Buf<C> bx(x), bt(t); W<C> const s = bx.view(), u = bt.view(); auto z = stdstr<C>(t); C const* q = z.c_str(); auto zx = stdstr<C>(x); C const* w = zx.c_str(); W<C> const o(q);
	vf::tag() = "compare";
	auto ev = [&](int p1, int n1, int p2, int n2, int r) { vf::Ev e("cmp"); e("s", x)("t", t)("p1", p1)("n1", n1)("p2", p2)("n2", n2)("r", r); e.emit(); };
	ev(0, 1000, 0, 1000, cmp([&] { return s.compare(u); })); ev(0, 1000, 0, 1000, cmp([&] { return s.compare(q); })); ev(0, 1000, 0, 1000, cmp([&] { return s.compare(o.begin()); }));
	for (int k = 0; k < 3; ++k) {
		int p1 = vf::rnd(0, int(x.size()) + 1), n1 = vf::rnd(0, 3) ? vf::rnd(0, 4) : 1000, p2 = vf::rnd(0, int(t.size()) + 1), n2 = vf::rnd(0, 3) ? vf::rnd(0, 4) : 1000;
		ev(p1, n1, 0, 1000, cmp([&] { return s.compare(p1, ps(n1), u); })); ev(p1, n1, 0, 1000, cmp([&] { return s.compare(p1, ps(n1), q); })); ev(p1, n1, 0, 1000, cmp([&] { return s.compare(p1, ps(n1), o.begin()); }));
		ev(p1, n1, p2, n2, cmp([&] { return s.compare(p1, ps(n1), u, p2, ps(n2)); }));
		int m = std::min(n2, int(t.size())); ev(p1, n1, 0, m, cmp([&] { return s.compare(p1, ps(n1), q, std::size_t(m)); })); ev(p1, n1, 0, m, cmp([&] { return s.compare(p1, ps(n1), o.begin(), std::size_t(m)); }));
	}
	auto rel = [&](char const* how, bool a, bool b, bool c, bool d, bool e1, bool f) { vf::tag() = how; vf::Ev e("rel"); e("s", x)("t", t)("r", std::vector<int>{a, b, c, d, e1, f}); e.emit(); };
	rel("view,view", s == u, s != u, s < u, s > u, s <= u, s >= u);
	rel("view,ptr", s == q, s != q, s < q, s > q, s <= q, s >= q);
	rel("ptr,view", w == u, w != u, w < u, w > u, w <= u, w >= u);
	{ sprout::basic_string<C, 16> const ss = mk<C, 16>(t); W<C> const v2(ss); rel("of string", s == v2, s != v2, s < v2, s > v2, s <= v2, s >= v2); }
	vf::tag() = "hash"; { vf::Ev h("hash"); h("s", x)("t", t)("r", sprout::to_hash(s) == sprout::to_hash(u) && std::hash<W<C> >()(s) == std::hash<W<C> >()(u)); h.emit(); }
	vf::Ev e("ends"); vf::tag() = "starts/ends"; e("s", x)("t", t)("r", std::vector<int>{s.starts_with(u), s.ends_with(u)}); e.emit();
	if (t.size() == 1) { vf::Ev g("ends"); vf::tag() = "starts/ends c"; g("s", x)("t", t)("r", std::vector<int>{s.starts_with(C(t[0])), s.ends_with(C(t[0]))}); g.emit(); }
}
template<typename C> void substrs(V const& x) {
	Buf<C> bx(x); W<C> const s = bx.view(); vf::tag() = "substr";
	for (int p = 0; p <= int(x.size()) + 1; ++p) for (int n : {0, 1, 2, 1000, 3}) for (int form = 0; form < 3; ++form) {
		V r; bool th = false;
		try {
			if (form == 0) { auto v = s.substr(p, ps(n)); r = v.size() > 50 ? V{-3} : seen<C>(v); }
			else if (form == 1) { if (n != 1000) continue; r = seen<C>(s.substr(p)); }
			else { C buf[64] = {}; std::size_t k = s.copy(buf, ps(n), p); if (buf[k] != C()) r = {-2}; else for (std::size_t i = 0; i < k; ++i) r.push_back(code(buf[i])); }
		} catch (std::out_of_range const&) { th = true; }
		vf::Ev e("sub"); e("s", x)("p", p)("n", n)("r", r)("th", th); e.emit();
	}
	auto ev = [&](char const* how, V const& r, int p, int n) { vf::tag() = how; vf::Ev e("sub"); e("s", x)("p", p)("n", n)("r", r)("th", false); e.emit(); };
	ev("substr()", seen<C>(s.substr()), 0, 1000);
	for (int k = 0; k <= int(x.size()) + 1; ++k) {
		int m = std::min(k, int(x.size()));
		ev("remove_prefix const", seen<C>(s.remove_prefix(k)), m, 1000); ev("remove_suffix const", seen<C>(s.remove_suffix(k)), 0, int(x.size()) - m);
		W<C> a(s); a.remove_prefix(k); ev("remove_prefix", seen<C>(a), m, 1000); W<C> b(s); b.remove_suffix(k); ev("remove_suffix", seen<C>(b), 0, int(x.size()) - m);
	}
	ev("to_string N", content(s.template to_string<16>()), 0, 1000); ev("conv N", content(static_cast<sprout::basic_string<C, 16> >(s)), 0, 1000); { std::basic_string<C, sprout::char_traits<C> > q = s.to_string(); ev("to_string std", seqof(q), 0, 1000); }
	auto z = stdstr<C>(x); sprout::basic_string<C, 16> const sp = mk<C, 16>(x);
	{ std::basic_string<C, sprout::char_traits<C> > y(z.begin(), z.end()); ev("of std", seen<C>(W<C>(y)), 0, 1000); } ev("of ptr", seen<C>(W<C>(z.c_str())), 0, 1000); ev("of sprout", seen<C>(W<C>(sp)), 0, 1000); ev("to_string_view std", seqof(sprout::to_string_view(z)), 0, 1000); ev("to_string_view s", seen<C>(sprout::to_string_view(sp)), 0, 1000);
	ev("to_string_view p", seen<C>(sprout::to_string_view(z.c_str())), 0, 1000); ev("to_string_view p,n", seen<C>(sprout::to_string_view(z.c_str(), z.size())), 0, 1000); ev("to_string_view v", seen<C>(sprout::to_string_view(s)), 0, 1000);
	{ W<C> a, b(s); a = s; ev("assign", seen<C>(a), 0, 1000); b.clear(); ev("clear", seen<C>(b), 0, 0); a.swap(b); ev("swap", seen<C>(b), 0, 1000); ev("swap", seen<C>(a), 0, 0); swap(a, b); ev("swap free", seen<C>(a), 0, 1000); ev("default", seen<C>(W<C>()), 0, 0); }
}
template<typename C> void outs(V const& x) { Buf<C> b(x); std::basic_ostringstream<C> os; os << b.view(); vf::tag() = "<<"; vf::Ev f("out"); f("s", x)("r", seqof(os.str())); f.emit(); }
template<typename C> void queries(int n) {
	vf::all_seqs(2, 4, [&](V x0) { vf::all_seqs(2, 2, [&](V t0) { V x(x0), t(t0); query_alpha<C>(x); query_alpha<C>(t); for (int p = 0; p <= int(x.size()) + 1; ++p) finds<C>(x, t, p); finds<C>(x, t, 1000); compares<C>(x, t); }); });
	for (int i = 0; i < n; ++i) {
		V x = vf::rnd_seq(3, vf::rnd(0, 10)), t = vf::rnd_seq(3, vf::rnd(0, 5)); query_alpha<C>(x); query_alpha<C>(t);
		if (vf::rnd(0, 3) == 0 && x.size() >= t.size()) std::copy(t.begin(), t.end(), x.begin() + vf::rnd(0, int(x.size() - t.size())));
		finds<C>(x, t, vf::rnd(0, 4) ? vf::rnd(0, int(x.size()) + 1) : 1000); compares<C>(x, t); if (i % 4 == 0) { V y(x); if (!y.empty() && vf::rnd(0, 1)) y.back() = 'c'; if (vf::rnd(0, 1) && !y.empty()) y.pop_back(); compares<C>(x, y); }
		if (i % 6 == 0) substrs<C>(x);
	}
	vf::all_seqs(2, 3, [&](V x) { query_alpha<C>(x); substrs<C>(x); });
}
#else
// uniform names for the narrow and wide functions
template<typename C> struct F;
template<> struct F<char> {
	typedef char C; static constexpr bool narrow = true;
	static int cmp(C const* a, C const* b) { return sprout::strcmp(a, b); } static int coll(C const* a, C const* b) { return sprout::strcoll(a, b); } static int ncmp(C const* a, C const* b, std::size_t n) { return sprout::strncmp(a, b, n); }
	static std::size_t len(C const* a) { return sprout::strlen(a); } static std::size_t nlen(C const* a, std::size_t n) { return sprout::strlen(a, n); } static std::size_t spn(C const* a, C const* b) { return sprout::strspn(a, b); } static std::size_t cspn(C const* a, C const* b) { return sprout::strcspn(a, b); }
	template<typename P> static P chr(P a, C c) { return sprout::strchr(a, c); } template<typename P> static P rchr(P a, C c) { return sprout::strrchr(a, c); } template<typename P> static P pbrk(P a, C const* b) { return sprout::strpbrk(a, b); } template<typename P> static P str(P a, C const* b) { return sprout::strstr(a, b); }
	static C const* mchr(C const* a, C c, std::size_t n) { return static_cast<C const*>(sprout::memchr(a, c, n)); } static C* mchr(C* a, C c, std::size_t n) { return static_cast<C*>(sprout::memchr(a, c, n)); } static int mcmp(C const* a, C const* b, std::size_t n) { return sprout::memcmp(a, b, n); }
	static C* mcpy(C* a, C const* b, std::size_t n) { return static_cast<C*>(sprout::memcpy(a, b, n)); } static C* mmove(C* a, C const* b, std::size_t n) { return static_cast<C*>(sprout::memmove(a, b, n)); } static C* mset(C* a, C c, std::size_t n) { return static_cast<C*>(sprout::memset(a, c, n)); }
	static C* cpy(C* a, C const* b) { return sprout::strcpy(a, b); } static C* cat(C* a, C const* b) { return sprout::strcat(a, b); } static C* ncpy(C* a, C const* b, std::size_t n) { return sprout::strncpy(a, b, n); } static C* ncat(C* a, C const* b, std::size_t n) { return sprout::strncat(a, b, n); }
};
template<> struct F<wchar_t> {
	typedef wchar_t C; static constexpr bool narrow = false;
	static int cmp(C const* a, C const* b) { return sprout::wcscmp(a, b); } static int coll(C const* a, C const* b) { return sprout::wcscoll(a, b); } static int ncmp(C const* a, C const* b, std::size_t n) { return sprout::wcsncmp(a, b, n); }
	static std::size_t len(C const* a) { return sprout::wcslen(a); } static std::size_t nlen(C const* a, std::size_t n) { return sprout::wcslen(a, n); } static std::size_t spn(C const* a, C const* b) { return sprout::wcsspn(a, b); } static std::size_t cspn(C const* a, C const* b) { return sprout::wcscspn(a, b); }
	template<typename P> static P chr(P a, C c) { return sprout::wcschr(a, c); } template<typename P> static P rchr(P a, C c) { return sprout::wcsrchr(a, c); } template<typename P> static P pbrk(P a, C const* b) { return sprout::wcspbrk(a, b); } template<typename P> static P str(P a, C const* b) { return sprout::wcsstr(a, b); }
	template<typename P> static P mchr(P a, C c, std::size_t n) { return sprout::wmemchr(a, c, n); } static int mcmp(C const* a, C const* b, std::size_t n) { return sprout::wmemcmp(a, b, n); }
	static C* mcpy(C* a, C const* b, std::size_t n) { return sprout::wmemcpy(a, b, n); } static C* mmove(C* a, C const* b, std::size_t n) { return sprout::wmemmove(a, b, n); } static C* mset(C* a, C c, std::size_t n) { return sprout::wmemset(a, c, n); }
	static C* cpy(C* a, C const* b) { return sprout::wcscpy(a, b); } static C* cat(C* a, C const* b) { return sprout::wcscat(a, b); } static C* ncpy(C* a, C const* b, std::size_t n) { return sprout::wcsncpy(a, b, n); } static C* ncat(C* a, C const* b, std::size_t n) { return sprout::wcsncat(a, b, n); }
};
// the same through the generic (Elem) overloads of <cstring>
template<> struct F<char16_t> {
	typedef char16_t C; static constexpr bool narrow = false;
	static int cmp(C const* a, C const* b) { return sprout::strcmp(a, b); } static int coll(C const* a, C const* b) { return sprout::strcoll(a, b); } static int ncmp(C const* a, C const* b, std::size_t n) { return sprout::strncmp(a, b, n); }
	static std::size_t len(C const* a) { return sprout::strlen(a); } static std::size_t nlen(C const* a, std::size_t n) { return sprout::strlen(a, n); } static std::size_t spn(C const* a, C const* b) { return sprout::strspn(a, b); } static std::size_t cspn(C const* a, C const* b) { return sprout::strcspn(a, b); }
	template<typename P> static P chr(P a, C c) { return sprout::strchr(a, c); } template<typename P> static P rchr(P a, C c) { return sprout::strrchr(a, c); } template<typename P> static P pbrk(P a, C const* b) { return sprout::strpbrk(a, b); } template<typename P> static P str(P a, C const* b) { return sprout::strstr(a, b); }
	static C* cpy(C* a, C const* b) { return sprout::strcpy(a, b); } static C* cat(C* a, C const* b) { return sprout::strcat(a, b); } static C* ncpy(C* a, C const* b, std::size_t n) { return sprout::strncpy(a, b, n); } static C* ncat(C* a, C const* b, std::size_t n) { return sprout::strncat(a, b, n); }
};
template<typename P, typename Q> int off(P r, Q base) { return r ? int(r - base) : -1; }
template<typename C> void two(V const& x, V const& t) {
	auto sx = stdstr<C>(x), st = stdstr<C>(t); C const* a = sx.c_str(); C const* b = st.c_str(); std::vector<C> m(sx.begin(), sx.end()); m.push_back(C()); C* w = m.data();
	{ vf::tag() = "cmp"; vf::Ev e("c2"); e("s", x)("t", t)("cmp", sgn(F<C>::cmp(a, b)))("coll", sgn(F<C>::coll(a, b)))("spn", int(F<C>::spn(a, b)))("cspn", int(F<C>::cspn(a, b)))("pbrk", off(F<C>::pbrk(a, b), a))("str", off(F<C>::str(a, b), a))("len", int(F<C>::len(a)))("pbrkw", off(F<C>::pbrk(w, b), w))("strw", off(F<C>::str(w, b), w)); e.emit(); }
	for (int n = 0; n <= int(std::max(x.size(), t.size())) + 2; ++n) { vf::tag() = "ncmp"; vf::Ev e("nc"); e("s", x)("t", t)("n", n)("r", sgn(F<C>::ncmp(a, b, n)))("nlen", int(F<C>::nlen(a, std::size_t(n)))); e.emit(); }
}
template<typename C> void one(V const& x) {
	auto sx = stdstr<C>(x); C const* a = sx.c_str(); std::vector<C> m(sx.begin(), sx.end()); m.push_back(C()); C* w = m.data();
	for (int c : {0, int('a'), int('b'), sizeof(C) == 1 ? 200 : 0x3042, int('z')}) { vf::tag() = "chr"; vf::Ev e("chr"); e("s", x)("c", c)("r", V{off(F<C>::chr(a, C(c)), a), off(F<C>::chr(w, C(c)), w), off(F<C>::rchr(a, C(c)), a), off(F<C>::rchr(w, C(c)), w)}); e.emit(); }
}
// memory blocks may contain the zero character
template<typename C> void mem2(V const& x, V const& t) {
	auto sx = stdstr<C>(x), st = stdstr<C>(t); std::vector<C> m(sx.begin(), sx.end()), k(st.begin(), st.end()); m.push_back(C('a')); k.push_back(C('b'));
	for (int n = 0; n <= int(std::min(x.size(), t.size())); ++n) { vf::tag() = "mcmp"; vf::Ev e("mc"); e("s", x)("t", t)("n", n)("r", sgn(F<C>::mcmp(m.data(), k.data(), n))); e.emit(); }
	for (int n = 0; n <= int(x.size()); ++n) for (int c : {0, int('a'), sizeof(C) == 1 ? 200 : 0x3042}) { vf::tag() = "mchr"; C const* a = m.data(); vf::Ev e("mchr"); e("s", x)("c", c)("n", n)("r", off(F<C>::mchr(a, C(c), n), a))("w", off(F<C>::mchr(m.data(), C(c), n), a)); e.emit(); }
}
// mutators: the whole buffer before and after is recorded; d, s are offsets into it
template<typename C, typename Fn> void mut(char const* op, std::vector<C> buf, int d, int s, int n, Fn f) {
	vf::tag() = op; vf::Ev e(op); V before, after; for (C c : buf) before.push_back(code(c)); e("b", before)("d", d)("s", s)("n", n);
	C* r = f(buf.data()); for (C c : buf) after.push_back(code(c)); e("r", after)("ret", int(r - buf.data())); e.emit();
}
template<typename C> void mems(int N) {
	typedef F<C> G;
	for (int i = 0; i < N; ++i) {
		int L = vf::rnd(1, 8); std::vector<C> b; for (int k = 0; k < L; ++k) b.push_back(C(vf::rnd(0, 4) ? 'a' + k : sizeof(C) == 1 ? 200 : 0)); int n = vf::rnd(0, L), d = vf::rnd(0, L - n), s = vf::rnd(0, L - n), c = vf::rnd(0, 2) ? 'z' : sizeof(C) == 1 ? 250 : 0x3042;
		mut<C>("mmove", b, d, s, n, [&](C* p) { return G::mmove(p + d, p + s, n); });
		mut<C>("mset", b, d, c, n, [&](C* p) { return G::mset(p + d, C(c), n); });
		if (d + n <= s || s + n <= d) mut<C>("mcpy", b, d, s, n, [&](C* p) { return G::mcpy(p + d, p + s, n); });
	}
}
template<typename C> void muts(int N) {
	typedef F<C> G;
	for (int i = 0; i < N; ++i) {	// [destination text 0 rubbish][source text 0]
		V t = vf::rnd_seq(3, vf::rnd(0, 5)), x = vf::rnd_seq(3, vf::rnd(0, 5)); query_alpha<C>(t); query_alpha<C>(x); int n = vf::rnd(0, 7); std::vector<C> b; auto fill = [&](std::size_t room) { b.clear(); for (int c : x) b.push_back(C(c)); b.push_back(C()); while (b.size() < room) b.push_back(C('#')); int s = int(b.size()); for (int c : t) b.push_back(C(c)); b.push_back(C()); b.push_back(C('#')); return s; };
		int s;
		s = fill(t.size() + 1); mut<C>("cpy", b, 0, s, n, [&](C* p) { return G::cpy(p, p + s); });
		s = fill(n); mut<C>("ncpy", b, 0, s, n, [&](C* p) { return G::ncpy(p, p + s, n); });
		s = fill(x.size() + t.size() + 1); mut<C>("cat", b, 0, s, n, [&](C* p) { return G::cat(p, p + s); });
		s = fill(x.size() + std::min<int>(n, t.size()) + 1); mut<C>("ncat", b, 0, s, n, [&](C* p) { return G::ncat(p, p + s, n); });
	}
}
template<typename C> void cfuncs(int N) {
	vf::all_seqs(3, 4, [&](V x) { query_alpha<C>(x); one<C>(x); }); vf::all_seqs(3, 3, [&](V x0) { vf::all_seqs(3, 3, [&](V t) { V x(x0); query_alpha<C>(x); query_alpha<C>(t); two<C>(x, t); }); });
	for (int i = 0; i < N; ++i) { V x = vf::rnd_seq(3, vf::rnd(3, 18)), t = vf::rnd_seq(3, vf::rnd(1, 6)); query_alpha<C>(x); query_alpha<C>(t); if (vf::rnd(0, 2) && x.size() >= t.size()) std::copy(t.begin(), t.end(), x.begin() + vf::rnd(0, int(x.size() - t.size()))); two<C>(x, t); one<C>(x); V y(x); y[vf::rnd(0, int(y.size()) - 1)] = 'c'; two<C>(x, y); two<C>(y, x); }
	muts<C>(N * 2);
}
template<typename C> void memall(int N) { auto zero = [](V& v) { for (int& c : v) if (c == 'b') c = 0; }; vf::all_seqs(3, 3, [&](V x0) { vf::all_seqs(3, 3, [&](V t) { V x(x0); query_alpha<C>(x); query_alpha<C>(t); zero(x); zero(t); mem2<C>(x, t); }); }); for (int i = 0; i < N; ++i) { V x = vf::rnd_seq(3, vf::rnd(3, 12)); V t(x); t[vf::rnd(0, int(t.size()) - 1)] = 1; query_alpha<C>(x); query_alpha<C>(t); zero(x); zero(t); mem2<C>(x, t); } mems<C>(N * 3); }
#endif
int main(int argc, char** argv) {
	vf::init(argc, argv);
	int n = vf::thorough() ? 4000 : 250;
#if PART == 1
	queries<char>(n); for (int i = 0; i < 50; ++i) outs<char>(vf::rnd_seq(26, vf::rnd(0, 9), 'a'));
#elif PART == 2
	queries<wchar_t>(n); for (int i = 0; i < 50; ++i) outs<wchar_t>(vf::rnd_seq(26, vf::rnd(0, 9), 'a')); queries<char16_t>(n / 5);
#elif PART == 3
	cfuncs<char>(n); memall<char>(n);
#elif PART == 4
	cfuncs<wchar_t>(n); cfuncs<char16_t>(n / 2); memall<wchar_t>(n);
#endif
	return vf::done();
}
