// Observes one iterator range [b, e) from every side: forward, backward, all pairs of positions, random walks.
// What is recorded is judged by spec/Cursors.tla: an iterator is a position in one fixed sequence.
#ifndef VF_ITWALK_HPP
#define VF_ITWALK_HPP
#include "vf.hpp"
#include <iterator>
#include <sprout/iterator/operation.hpp>
namespace vf {
	typedef std::vector<int> V;
	enum { FWD = 1, BID = 2, RA = 3 };
	static const int END = -1000, LIMIT = 40;
	template<typename It> struct Pos { static int val(It const& i, It const& e) { return i == e ? END : int(*i); } };
	template<int Cat> struct Level {};
	template<typename It> void back_part(Ev&, It, It, int, Level<FWD>) {}
	template<typename It> void back_part(Ev& e, It b, It l, int n, Level<BID>) {
		V r1, r2, r3; It i = l; for (int k = 0; k < n; ++k) { --i; r1.push_back(int(*i)); }
		It j = l; for (int k = 0; k < n; ++k) { It o = j--; (void)o; r2.push_back(int(*j)); if (!(o == sprout::next(j))) r2.push_back(-77); }
		It q = l; for (int k = 0; k < n; ++k) { q = sprout::prev(q); r3.push_back(int(*q)); }
		e("r1", r1)("r2", r2)("r3", r3)("rb", V{i == b, j == b, q == b, sprout::next(b, n) == l, sprout::prev(l, n) == b, int(sprout::distance(b, l))});
	}
	template<typename It> void back_part(Ev& e, It b, It l, int n, Level<RA>) {
		back_part(e, b, l, n, Level<BID>());
		std::vector<V> pm;
		for (int i = 0; i <= n; ++i) {
			It x = b + i;
			for (int j = 0; j <= n; ++j) {
				It y = l - (n - j); It z = x + (j - i); It w = x - (i - j); It t(x); t += (j - i); It u(x); u -= (i - j); It m = (j - i) + x;
				int same = (z == y) + 2 * (w == y) + 4 * (t == y) + 8 * (u == y) + 16 * (m == y) + 32 * (z - b == j);
				int at = j < n ? int(x[j - i]) : END, at2 = Pos<It>::val(z, l), at3 = Pos<It>::val(y, l);
				int rel = (x == y) + 2 * (x != y) + 4 * (x < y) + 8 * (x > y) + 16 * (x <= y) + 32 * (x >= y);
				pm.push_back(V{i, j, same, at, at2, at3, rel, int(y - x), i <= j ? int(sprout::distance(x, y)) : j - i});
			}
		}
		e("pm", pm);
	}
	// a random walk: [op, k, value read by the operation, value at the new position, distance from b]
	template<typename It> struct Walk {
		It b, l, i, other; int n, p, op_; std::vector<V> w;
		Walk(It b_, It l_, int n_) : b(b_), l(l_), i(b_), other(b_), n(n_), p(0), op_(0) {}
		int val(It const& x) const { return x == l ? END : int(*x); }
		void log(int o, int k, int ret) { w.push_back(V{o, k, ret, val(i), int(sprout::distance(b, i))}); }
		void fwd(int o) {
			switch (o) {
			case 0: if (p < n) { ++p; It& r = ++i; log(0, 0, &r == &i ? val(r) : -55); } break;
			case 1: if (p < n) { ++p; It r = i++; log(1, 0, val(r)); } break;
			case 2: if (p < n) { ++p; i = sprout::next(i); log(2, 0, END); } break;
			case 3: { It c(i); log(3, 0, val(c)); } break;
			case 4: { using std::swap; swap(i, other); std::swap(p, op_); log(4, 0, val(other)); } break;
			case 5: if (p < n) { It r = *&i; int v = int(*r); other = i; op_ = p; log(5, 0, v); } break;
			}
		}
		void step(Level<FWD>) { fwd(rnd(0, 5)); }
		void bid(int o) {
			switch (o) {
			case 6: if (p > 0) { --p; It& r = --i; log(6, 0, &r == &i ? val(r) : -55); } break;
			case 7: if (p > 0) { --p; It r = i--; log(7, 0, val(r)); } break;
			case 8: if (p > 0) { --p; i = sprout::prev(i); log(8, 0, END); } break;
			}
		}
		void step(Level<BID>) { int o = rnd(0, 8); if (o < 6) fwd(o); else bid(o); }
		void step(Level<RA>) {
			int o = rnd(0, 12), k = rnd(-p, n - p);
			if (o < 6) fwd(o); else if (o < 9) bid(o);
			else switch (o) {
			case 9: i += k; p += k; log(9, k, END); break;
			case 10: i -= -k; p += k; log(9, k, END); break;
			case 11: i = i + k; p += k; log(9, k, END); break;
			case 12: { if (n == 0) break; k = rnd(-p, n - p - 1); if (p + k < 0 || p + k >= n) break; int v = int(i[k]); log(10, k, v); } break;
			}
		}
	};
	template<int Cat, typename It, typename Put> void observe(Put put, It b, It l) {
		Ev e("it"); put(e);
		V f1, f2, f3; int g = 0;
		for (It i = b; i != l && g < LIMIT; ++i, ++g) f1.push_back(int(*i));
		e("cat", Cat);
		if (g >= LIMIT) { e("f1", f1); e.emit(); return; }
		int n = int(f1.size());
		for (It i = b; !(i == l); ) { It o = i++; f2.push_back(int(*o)); }
		for (It i = b; i != l; i = sprout::next(i)) f3.push_back(int(*i));
		e("f1", f1)("f2", f2)("f3", f3)("d", int(sprout::distance(b, l)));
		if (n <= 9) back_part(e, b, l, n, Level<Cat>()); else back_part(e, b, l, n, Level<(Cat > BID ? BID : Cat)>());
		Walk<It> w(b, l, n);
		for (int k = 0; k < 12; ++k) w.step(Level<Cat>());
		e("w", w.w);
		e.emit();
	}
}
#endif
