// Helpers shared by the string drivers: characters are recorded as their unsigned code.
#ifndef STRS_HPP
#define STRS_HPP
#include "vf.hpp"
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
typedef std::vector<int> V;
template<typename C> int code(C c) { return int((unsigned char)c) == int(c) || sizeof(C) > 1 ? int(c) : int((unsigned char)c); }
template<typename C> std::basic_string<C> stdstr(V const& v) { std::basic_string<C> s; for (int x : v) s += C(x); return s; }
template<typename S> V seqof(S const& s) { V r; for (auto it = s.begin(); it != s.end(); ++it) r.push_back(code(*it)); return r; }
// content of a sprout string, checked for internal consistency
template<typename C, std::size_t N, typename Tr> V content(sprout::basic_string<C, N, Tr> const& s) {
	V r = seqof(s); bool ok = r.size() == s.size() && s.size() == s.length() && s.size() <= N && s.c_str()[s.size()] == C() && s.empty() == r.empty() && s.max_size() == N && s.capacity() == N;
	for (std::size_t i = 0; ok && i < r.size(); ++i) ok = code(s[i]) == r[i] && code(s.c_str()[i]) == r[i] && code(s.data()[i]) == r[i] && code(s.at(i)) == r[i];
	V b; for (auto it = s.rbegin(); it != s.rend(); ++it) b.push_back(code(*it));
	ok = ok && V(b.rbegin(), b.rend()) == r;
	if (ok && !r.empty()) ok = code(s.front()) == r[0] && code(s.back()) == r.back();
	bool th = false; try { (void)s.at(s.size()); } catch (std::out_of_range const&) { th = true; }
	return ok && th ? r : V{-1};
}
template<typename C, std::size_t N> sprout::basic_string<C, N> mk(V const& v) { auto s = stdstr<C>(v); return sprout::basic_string<C, N>::from_c_str(s.c_str(), s.size()); }
inline int pos(std::size_t p) { return p == std::size_t(-1) ? -1 : p > 1000 ? 1000 : int(p); }
inline int sgn(int r) { return r < 0 ? -1 : r > 0 ? 1 : 0; }
// positions 0..n+2, then npos (recorded as 1000: past everything)
inline std::size_t ps(int p) { return p >= 1000 ? std::size_t(-1) : std::size_t(p); }
#endif
