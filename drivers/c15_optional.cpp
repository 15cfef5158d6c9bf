// C15: histories over three optionals of values (part 1), of references (part 2); pairs of states (both parts).
#define SPROUT_ENABLE_ASSERT_HANDLER
#include "vf.hpp"
#include <sprout/assert.hpp>
struct refused {};
namespace sprout { void assertion_failed(sprout::assertion_info const&) { throw refused(); } void assertion_failed_msg(sprout::assertion_info_msg const&) { throw refused(); } }
#include <sprout/optional.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/utility/swap.hpp>
#include <sstream>
#include <string>
typedef std::vector<int> V;
// a value type with its own constructors
struct pt { int x, y; pt() : x(-7), y(-7) {} pt(int a) : x(a), y(0) {} pt(int a, int b) : x(a + b), y(b) {} pt(std::initializer_list<int> l) : x(0), y(0) { for (int v : l) x += v; } bool operator==(pt const& o) const { return x == o.x; } bool operator<(pt const& o) const { return x < o.x; } };
std::size_t hash_value(pt const& p) { return std::size_t(p.x); }
std::ostream& operator<<(std::ostream& s, pt const& p) { return s << p.x; } std::istream& operator>>(std::istream& s, pt& p) { return s >> p.x; }
inline int val(int v) { return v; } inline int val(long v) { return int(v); } inline int val(pt const& p) { return p.x; }
template<typename T> T mkv(int v) { return T(v); }
template<typename F> bool refuses(F f) { try { f(); } catch (refused const&) { return true; } return false; }
template<typename F> bool throws(F f) { try { f(); } catch (sprout::bad_optional_access const&) { return true; } return false; }
template<typename F> bool oor(F f) { try { f(); } catch (std::out_of_range const&) { return true; } return false; }

// everything an optional shows, as the sequence of its values; {-1}: it contradicts itself
template<typename T, typename D> V look(sprout::optional<T>& o, D& other) {
	sprout::optional<T> const& c = o; V r; bool ok = true; int ov = val(other);
	bool en = c.is_initialized(); ok = ok && bool(c) == en && !c == !en && c.size() == std::size_t(en) && c.empty() == !en && (c == sprout::nullopt) == !en && (sprout::nullopt == c) == !en && (c != sprout::nullopt) == en && (sprout::nullopt != c) == en;
	ok = ok && !(c < sprout::nullopt) && (sprout::nullopt < c) == en && (c > sprout::nullopt) == en && !(sprout::nullopt > c) && (c <= sprout::nullopt) == !en && (sprout::nullopt <= c) && (c >= sprout::nullopt) && (sprout::nullopt >= c) == !en;
	if (en) {
		int v = val(*c); r.push_back(v);
		ok = ok && val(*o) == v && val(c.get()) == v && val(o.get()) == v && val(c.value()) == v && val(o.value()) == v && val(*c.get_pointer()) == v && val(*o.get_ptr()) == v && val(*c.operator->()) == v && val(*o.operator->()) == v;
		ok = ok && val(sprout::get(c)) == v && val(sprout::get(o)) == v && val(*sprout::get_pointer(c)) == v && val(*sprout::get(&o)) == v && val(*sprout::get(&c)) == v && val(*sprout::get_pointer(o)) == v;
		ok = ok && val(c.value_or(other)) == v && val(o.value_or(other)) == v && val(c.get_value_or(other)) == v && val(sprout::get_value_or(c, other)) == v && val(sprout::get_value_or(o, other)) == v;
		ok = ok && val(c[0]) == v && val(o[0]) == v && val(c.at(0)) == v && val(o.at(0)) == v && val(c.front()) == v && val(o.back()) == v && val(o.front()) == v && val(c.back()) == v && oor([&] { (void)c.at(1); }) && oor([&] { (void)o.at(1); });
	} else {
		ok = ok && throws([&] { (void)c.get(); }) && throws([&] { (void)o.get(); }) && throws([&] { (void)c.value(); }) && throws([&] { (void)o.value(); }) && refuses([&] { (void)*c; }) && refuses([&] { (void)*o; }) && refuses([&] { (void)c.operator->(); }) && refuses([&] { (void)o.operator->(); });
		ok = ok && !c.get_pointer() && !o.get_ptr() && val(c.value_or(other)) == ov && val(o.value_or(other)) == ov && val(c.get_value_or(other)) == ov && val(sprout::get_value_or(c, other)) == ov && val(sprout::get_value_or(o, other)) == ov && oor([&] { (void)c.at(0); }) && oor([&] { (void)o.at(0); });
	}
	V it, cit, rit; for (auto i = o.begin(); i != o.end(); ++i) it.push_back(val(*i)); for (auto i = c.cbegin(); i != c.cend(); ++i) cit.push_back(val(*i)); for (auto i = c.rbegin(); i != c.rend(); ++i) rit.push_back(val(*i));
	ok = ok && it == r && cit == r && rit == r && oor([&] { c.rangecheck(c.size()); });
	return ok ? r : V{-1};
}
inline int b6(bool a, bool b, bool c, bool d, bool e, bool f) { return a + 2 * b + 4 * c + 8 * d + 16 * e + 32 * f; }
template<typename T> int rel(sprout::optional<T> const& a, sprout::optional<T> const& b) { return b6(a == b, a != b, a < b, a > b, a <= b, a >= b); }
template<typename T> bool same_hash(sprout::optional<T> const& a, sprout::optional<T> const& b) { return sprout::to_hash(a) == sprout::to_hash(b) && std::hash<sprout::optional<T> >()(a) == std::hash<sprout::optional<T> >()(b); }

#if PART == 1
template<typename T, typename U> void history(int len) {
	typedef sprout::optional<T> O; typedef sprout::optional<U> Q; O x[3]; Q u; T other = mkv<T>(99); U uo = U(98);
	vf::begin_history();
	auto show = [&](char const* op, int i, int j, int v, int k = 0) { vf::Ev e(op); e("i", i + 1)("j", j + 1)("v", v)("k", k)("a", look(x[0], other))("b", look(x[1], other))("c", look(x[2], other))("u", look(u, uo)); e.emit(); };
	show("init", 0, 0, 0);
	for (int s = 0; s < len; ++s) {
		int i = vf::rnd(0, 2), j = vf::rnd(0, 2), v = vf::rnd(0, 5), k = vf::rnd(0, 1); T t = mkv<T>(v);
		switch (vf::rnd(0, 40)) {
		case 0: { O n; x[i] = n; show("none", i, j, v); } break;
		case 1: { O n(sprout::nullopt); x[i] = sprout::move(n); show("none", i, j, v); } break;
		case 2: x[i] = sprout::nullopt; show("none", i, j, v); break;
		case 3: x[i].reset(); show("none", i, j, v); break;
		case 4: x[i].reset(sprout::nullopt); show("none", i, j, v); break;
		case 5: x[i].assign(sprout::nullopt); show("none", i, j, v); break;
		case 6: { O n(t); x[i] = n; show("set", i, j, v); } break;
		case 7: x[i] = t; show("set", i, j, v); break;
		case 8: x[i].assign(t); show("set", i, j, v); break;
		case 9: x[i].reset(t); show("set", i, j, v); break;
		case 10: x[i] = mkv<T>(v); show("set", i, j, v); break;
		case 11: x[i].emplace(t); show("set", i, j, v); break;
		case 12: { O n(sprout::in_place, v); x[i] = n; show("set", i, j, v); } break;
		case 13: x[i] = sprout::make_optional(t); show("set", i, j, v); break;
		case 14: x[i] = sprout::make_optional(k != 0, t); show("setif", i, j, v, k); break;
		case 15: { O n(k != 0, t); x[i] = n; show("setif", i, j, v, k); } break;
		case 16: x[i] = x[j]; show("copy", i, j, v); break;
		case 17: x[i].assign(x[j]); show("copy", i, j, v); break;
		case 18: { O n(x[j]); x[i] = sprout::move(n); show("copy", i, j, v); } break;
		case 19: x[i] = sprout::move(x[j]); show("copy", i, j, v); break;
		case 20: { O n(sprout::move(x[j])); x[i].assign(sprout::move(n)); show("copy", i, j, v); } break;
		case 21: x[i].swap(x[j]); show("swap", i, j, v); break;
		case 22: swap(x[i], x[j]); show("swap", i, j, v); break;
		case 23: sprout::swap(x[i], x[j]); show("swap", i, j, v); break;
		case 24: u = U(v); show("setu", i, j, v); break;
		case 25: u.reset(); show("noneu", i, j, v); break;
		case 26: x[i] = u; show("fromu", i, j, v); break;
		case 27: { O n(u); x[i] = n; show("fromu", i, j, v); } break;
		case 28: { Q m(u); O n(sprout::move(m)); x[i] = n; show("fromu", i, j, v); } break;
		case 29: { Q m(u); x[i] = sprout::move(m); show("fromu", i, j, v); } break;
		case 30: { Q m(u); x[i].assign(sprout::move(m)); show("fromu", i, j, v); } break;
		case 31: x[i].assign(u); show("fromu", i, j, v); break;
		case 32: if (!x[i]) break; *x[i] = t; show("set", i, j, v); break;
		case 33: if (!x[i]) break; x[i].get() = t; show("set", i, j, v); break;
		case 34: if (!x[i]) break; *x[i].operator->() = t; show("set", i, j, v); break;
		case 35: if (!x[i]) break; sprout::get(x[i]) = t; show("set", i, j, v); break;
		case 36: if (!x[i]) break; *x[i].begin() = t; show("set", i, j, v); break;
		case 37: if (!x[i]) break; x[i].at(0) = t; show("set", i, j, v); break;
		case 38: x[i] = U(v); show("set", i, j, v); break;
		case 39: { std::stringstream ss; ss << x[j]; O n; if (k) n = mkv<T>(4); ss >> n; x[i] = n; show("copy", i, j, v); } break;
		case 40: vf::Ev e("pair"); e("i", i + 1)("j", j + 1)("r", rel(x[i], x[j]))("h", same_hash(x[i], x[j])); e.emit(); break;
		}
	}
	vf::end_history();
}
void special(int len) {	// several constructor arguments
	for (int s = 0; s < len; ++s) {
		int v = vf::rnd(0, 5), w = vf::rnd(0, 5); sprout::optional<pt> o; pt other(99); if (vf::rnd(0, 1)) o = pt(7);
		vf::begin_history(); { vf::Ev e("init2"); e("a", look(o, other)); e.emit(); }
		o.emplace(v, w); { vf::Ev e("emplace"); e("v", v + w)("a", look(o, other)); e.emit(); }
		o.emplace({v, w, 1}); { vf::Ev e("emplace"); e("v", v + w + 1)("a", look(o, other)); e.emit(); }
		sprout::optional<pt> n(sprout::in_place, v, w); o = n; { vf::Ev e("emplace"); e("v", v + w)("a", look(o, other)); e.emit(); }
		sprout::optional<pt> m(sprout::in_place, {v, w, w}); o = m; { vf::Ev e("emplace"); e("v", v + w + w)("a", look(o, other)); e.emit(); }
		pt kv(v); sprout::optional<pt const> k(kv); { vf::Ev e("emplace"); e("v", v)("a", V{k->x}); e.emit(); }
		vf::end_history();
	}
}
#else
// optionals of references: slot values are indexes of cells
template<typename T> void history(int len) {
	typedef sprout::optional<T&> O; O x[3]; T cell[3] = {T(10), T(20), T(30)}; T other = T(99);
	vf::begin_history();
	auto idx = [&](O& o) { V r = look(o, other); if (r.empty() || r[0] == -1) return r; return V{o.get_pointer() >= cell && o.get_pointer() < cell + 3 ? int(o.get_pointer() - cell) + 1 : -1}; };
	auto show = [&](char const* op, int i, int j, int v) { vf::Ev e(op); e("i", i + 1)("j", j + 1)("v", v)("k", 0)("a", idx(x[0]))("b", idx(x[1]))("c", idx(x[2]))("u", V{val(cell[0]), val(cell[1]), val(cell[2])}); e.emit(); };
	show("initr", 0, 0, 0);
	for (int s = 0; s < len; ++s) {
		int i = vf::rnd(0, 2), j = vf::rnd(0, 2), v = vf::rnd(0, 5), q = vf::rnd(0, 2);
		switch (vf::rnd(0, 15)) {
		case 0: x[i] = sprout::nullopt; show("none", i, j, 0); break;
		case 1: x[i].reset(); show("none", i, j, 0); break;
		case 2: { O n(cell[q]); x[i] = n; show("set", i, j, q + 1); } break;
		case 3: x[i] = cell[q]; show("set", i, j, q + 1); break;
		case 4: x[i].emplace(cell[q]); show("set", i, j, q + 1); break;
		case 5: x[i].assign(cell[q]); show("set", i, j, q + 1); break;
		case 6: x[i].reset(cell[q]); show("set", i, j, q + 1); break;
		case 7: x[i] = x[j]; show("copy", i, j, 0); break;
		case 8: { O n(x[j]); x[i] = sprout::move(n); show("copy", i, j, 0); } break;
		case 9: x[i].swap(x[j]); show("swap", i, j, 0); break;
		case 10: swap(x[i], x[j]); show("swap", i, j, 0); break;
		case 11: if (!x[i]) break; *x[i] = T(v); show("write", i, j, v); break;
		case 12: if (!x[i]) break; sprout::get(x[i]) = T(v); show("write", i, j, v); break;
		case 13: { O const& c = x[i]; if (!c) break; *c = T(v); show("write", i, j, v); } break;
		case 14: if (!x[i]) break; x[i].get() = T(v); show("write", i, j, v); break;
		case 15: vf::Ev e("pair"); e("i", i + 1)("j", j + 1)("r", rel(x[i], x[j]))("h", same_hash(x[i], x[j])); e.emit(); break;
		}
	}
	vf::end_history();
}
#endif
int main(int ac, char** av) {
	vf::init(ac, av); int n = vf::thorough() ? 4000 : 250;
#if PART == 1
	for (int i = 0; i < n; ++i) { history<int, long>(40); history<pt, int>(30); if (i % 4 == 0) special(3); }
#else
	for (int i = 0; i < n; ++i) { history<int>(40); history<pt>(20); }
#endif
	return vf::done();
}
