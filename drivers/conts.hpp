// Containers under test: whole arrays of every small static size and windows (sub_array) of larger buffers.
#ifndef VF_CONTS_HPP
#define VF_CONTS_HPP
#include "iters.hpp"
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>

namespace vf {
	typedef std::vector<int> V;
	struct Snap { V w; int l, h; };
	template<typename T, std::size_t N> Snap snap(sprout::array<T, N> const& a) {
		Snap s; for (std::size_t i = 0; i < N; ++i) s.w.push_back(a[i]);
		s.l = 0; s.h = int(N); return s;
	}
	template<typename C> Snap snap(sprout::sub_array<C> const& a) {
		Snap s; auto const& in = a.get_internal();
		for (auto it = in.begin(); it != in.end(); ++it) s.w.push_back(*it);
		s.l = int(a.to_first()); s.h = int(a.to_last()); return s;
	}
	inline Ev& before(Ev& e, Snap const& s) { return e("w", s.w)("l", s.l)("h", s.h); }
	inline Ev& after(Ev& e, Snap const& s) { return e("r", s.w)("rl", s.l)("rh", s.h); }

	template<int N> sprout::array<int, N> arr(V const& v, int fill = 0) {
		sprout::array<int, N> a = {{}}; for (int i = 0; i < N; ++i) a[i] = i < (int)v.size() ? v[i] : fill; return a;
	}
	// buffer of N elements with v at [l, l+|v|) and distinct guard values elsewhere
	template<int N> sprout::array<int, N> framed(V const& v, int l) {
		sprout::array<int, N> a = {{}}; for (int i = 0; i < N; ++i) a[i] = 9001 + i;
		for (std::size_t i = 0; i < v.size(); ++i) a[l + i] = v[i]; return a;
	}
	// f(array<int,n>) for n = |v| <= 8
	template<typename F> void whole(V const& v, F f) {
		switch (v.size()) {
		case 1: f(arr<1>(v)); break; case 2: f(arr<2>(v)); break; case 3: f(arr<3>(v)); break; case 4: f(arr<4>(v)); break;
		case 5: f(arr<5>(v)); break; case 6: f(arr<6>(v)); break; case 7: f(arr<7>(v)); break; case 8: f(arr<8>(v)); break;
		default: break;
		}
	}
	// f(window) for windows of a buffer of N: owning copy, reference, const reference
	template<int N, typename F> void window(V const& v, int l, int kind, F f) {
		sprout::array<int, N> a = framed<N>(v, l);
		sprout::array<int, N> const& c = a;
		int h = l + int(v.size());
		switch (kind % 3) {
		case 0: f(sprout::sub_copy(a, l, h)); break;
		case 1: f(sprout::sub(a, l, h)); break;
		default: f(sprout::sub(c, l, h)); break;
		}
	}
}
// a functional call on `cont` whose result is a container
#define FN(FIELDS, CONT, CALL) do { \
		vf::Snap b_ = vf::snap(CONT); vf::Ev e_ = vf::Ev FIELDS; vf::before(e_, b_); \
		vf::Snap r_ = vf::snap(CALL); vf::after(e_, r_); \
		vf::Snap c_ = vf::snap(CONT); if (c_.w != b_.w || c_.l != b_.l || c_.h != b_.h) e_("w2", c_.w); \
		e_.emit(); } while (0)
// an in-place operation on [l,h) of the buffer `w` (std::vector<int>)
#define INPLACE(FIELDS, W, L, H, STMT) do { \
		vf::Ev e_ = vf::Ev FIELDS; e_("w", W)("l", (int)(L))("h", (int)(H)); STMT; e_("r", W)("rl", (int)(L))("rh", (int)(H)).emit(); } while (0)
#endif
