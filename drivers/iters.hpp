// Iterator categories, predicates and comparators shared by the algorithm drivers (their meaning: spec/SeqBase.tla).
#ifndef VF_ITERS_HPP
#define VF_ITERS_HPP
#include "vf.hpp"
#include <sprout/iterator/ptr_index_iterator.hpp>
#include <sprout/range/range_container.hpp>

namespace vf {
	typedef cat_iter<int const*, std::input_iterator_tag> inp;
	typedef sprout::ptr_index_iterator<int const> rai;
	typedef sprout::ptr_index_iterator<int> mrai;

	template<typename I> struct mk { static I at(int const* p, int i) { return I(p + i); } static int const* raw(I x) { return x.i; } };
	template<> struct mk<int const*> { static int const* at(int const* p, int i) { return p + i; } static int const* raw(int const* x) { return x; } };
	template<> struct mk<rai> { static rai at(int const* p, int i) { return rai(p, i); } static int const* raw(rai x) { return x.ptr(); } };
	template<typename I> struct mmk { static I at(int* p, int i) { return I(p + i); } static int* raw(I x) { return x.i; } };
	template<> struct mmk<int*> { static int* at(int* p, int i) { return p + i; } static int* raw(int* x) { return x; } };
	template<> struct mmk<mrai> { static mrai at(int* p, int i) { return mrai(p, i); } static int* raw(mrai x) { return x.ptr(); } };

	// unary predicates
	struct u_odd { constexpr bool operator()(int x) const { return (x / 10 + x) % 2 != 0; } static char const* name() { return "odd"; } };
	struct u_zero { constexpr bool operator()(int x) const { return x == 0; } static char const* name() { return "zero"; } };
	struct u_pos { constexpr bool operator()(int x) const { return x > 0; } static char const* name() { return "pos"; } };
	struct u_key1 { constexpr bool operator()(int x) const { return (x / 10) % 2 == 1; } static char const* name() { return "key1"; } };
	struct u_small { constexpr bool operator()(int x) const { return x < 15; } static char const* name() { return "small"; } };
	// binary predicates
	struct p_eq { constexpr bool operator()(int x, int y) const { return x == y; } static char const* name() { return "eq"; } };
	struct p_asym { constexpr bool operator()(int x, int y) const { return x == y || (x == 0 && y == 1); } static char const* name() { return "asym"; } };
	struct p_key { constexpr bool operator()(int x, int y) const { return x / 10 == y / 10; } static char const* name() { return "key"; } };
	struct p_lt { constexpr bool operator()(int x, int y) const { return x < y; } static char const* name() { return "lt"; } };
	// strict weak orders
	struct c_lt { constexpr bool operator()(int x, int y) const { return x < y; } static char const* name() { return "lt"; } };
	struct c_gt { constexpr bool operator()(int x, int y) const { return x > y; } static char const* name() { return "gt"; } };
	struct c_key { constexpr bool operator()(int x, int y) const { return x / 10 < y / 10; } static char const* name() { return "key"; } };
	struct c_kgt { constexpr bool operator()(int x, int y) const { return x / 10 > y / 10; } static char const* name() { return "kgt"; } };

	// keys to tagged elements: key*10 + position (mod 10)
	inline std::vector<int> tagged(std::vector<int> const& k, int t0 = 0) {
		std::vector<int> v(k); for (std::size_t i = 0; i < v.size(); ++i) v[i] = v[i] * 10 + int((i + t0) % 10);
		return v;
	}
}
// one call: the event's fields, the result
#define REC(FIELDS, RES) do { vf::Ev e_ = vf::Ev FIELDS; auto r_ = RES; e_("r", r_).emit(); } while (0)
#endif
