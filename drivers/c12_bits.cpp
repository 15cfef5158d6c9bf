// C12: bit functions, endian conversions; every call is recorded with the word as 16-bit limbs of its unsigned form.
#include "vf.hpp"
#include <sprout/bit/operation.hpp>
#include <sprout/net/endian.hpp>
#include <sprout/endian_traits.hpp>
#include <sprout/integer/carry_to_exp2.hpp>
#include <sprout/iterator/bytes_iterator.hpp>
typedef std::vector<int> V;
template<typename T> vf::raw L(T x) { return vf::limbs(typename std::make_unsigned<T>::type(x)); }
template<typename T> void unary(T x) {
	int const W = sizeof(T) * 8;
	vf::Ev e("u"); e("w", W)("x", L(x));
	// counting
	e("pop", sprout::popcount(x))("par", int(sprout::parity(x)))("clz", sprout::clz(x))("ctz", sprout::ctz(x))("clrsb", sprout::clrsb(x))("len", (int)sprout::bit_length(x))
		("l0", sprout::cntl0(x))("l1", sprout::cntl1(x))("t0", sprout::cntt0(x))("t1", sprout::cntt1(x));
	e("rev", L(sprout::bit_reverse(x)));
	// rightmost
	e("i0", L(sprout::isols0b(x)))("i1", L(sprout::isols1b(x)))("mt0", L(sprout::maskt0(x)))("mt1", L(sprout::maskt1(x)))("mt01", L(sprout::maskt0ls1b(x)))("mt10", L(sprout::maskt1ls0b(x)))
		("r1", L(sprout::rstls1b(x)))("rt1", L(sprout::rstt1(x)))("s0", L(sprout::setls0b(x)))("st0", L(sprout::sett0(x)));
	// round up to a power of two
	e("sg", std::is_signed<T>::value)("c2", L(sprout::carry_to_exp2(x)));
	// bytes
	V big, little, def; T sb(x), sl(x); T zb(~x), zl(~x);
	for (int i = 0; i < int(sizeof(T)); ++i) {
		big.push_back(sprout::big_endian_traits<T>::get_byte(x, i)); little.push_back(sprout::little_endian_traits<T>::get_byte(x, i)); def.push_back(sprout::endian_traits<T>::get_byte(x, i));
	}
	for (int i = 0; i < int(sizeof(T)); ++i) { sprout::big_endian_traits<T>::set_byte(zb, i, (unsigned char)big[i]); sprout::little_endian_traits<T>::set_byte(zl, i, (unsigned char)little[i]); }
	e("big", big)("little", little)("def", def)("zb", L(zb))("zl", L(zl))("esz", int(sprout::endian_traits<T>::size()));
	e.emit();
}
template<typename T> void net(T x) {
	vf::Ev e("n"); e("w", int(sizeof(T) * 8))("x", L(x))("h", L(sprout::net::hton(x)))("n", L(sprout::net::ntoh(x)))("rt", L(sprout::net::ntoh(sprout::net::hton(x))));
	e.emit();
}
template<typename T> void binary(T x, int b) {
	int const W = sizeof(T) * 8;
	vf::Ev e("b"); e("w", W)("x", L(x))("b", b);
	e("set", L(sprout::setbit(x, b)))("rst", L(sprout::rstbit(x, b)))("flip", L(sprout::flipbit(x, b)))("test", sprout::testbit(x, b));
	e("sge", L(sprout::setbitsge(x, b)))("rge", L(sprout::rstbitsge(x, b)))("fge", L(sprout::flipbitsge(x, b)));
	e("sle", L(sprout::setbitsle(x, b)))("rle", L(sprout::rstbitsle(x, b)))("fle", L(sprout::flipbitsle(x, b)));
	e("shal", L(sprout::shal(x, b)))("shar", L(sprout::shar(x, b)))("shll", L(sprout::shll(x, b)))("shlr", L(sprout::shlr(x, b)));
	e("rotl", L(sprout::rotl(x, b)))("rotr", L(sprout::rotr(x, b)));
	e("revin", L(sprout::bit_reverse_in(x, b + 1)));
	e.emit();
}
template<typename T> T word() {
	typedef typename std::make_unsigned<T>::type U; int const W = sizeof(T) * 8;
	unsigned long long v = vf::rnd64();
	switch (vf::rnd(0, 9)) {
	case 0: v &= vf::rnd64() & vf::rnd64(); break;
	case 1: v |= vf::rnd64() | vf::rnd64(); break;
	case 2: v = 1ULL << vf::rnd(0, W - 1); break;
	case 3: v = ~(1ULL << vf::rnd(0, W - 1)); break;
	case 4: v = (1ULL << vf::rnd(0, W - 1)) - 1; break;
	case 5: v = ~((1ULL << vf::rnd(0, W - 1)) - 1); break;
	case 6: v <<= vf::rnd(0, W - 1); break;
	case 7: v = U(v) >> vf::rnd(0, W - 1); break;
	case 8: v = 0xffULL << (8 * vf::rnd(0, W / 8 - 1)); break;
	default: break;
	}
	return T(U(v));
}
template<typename T> void type_run(int n) {
	typedef typename std::make_unsigned<T>::type U; int const W = sizeof(T) * 8;
	vf::tag() = std::string(std::is_signed<T>::value ? "s" : "u") + std::to_string(W);
	if (W == 8) { for (int v = 0; v < 256; ++v) { unary(T(U(v))); for (int b = 0; b < W; ++b) binary(T(U(v)), b); } return; }
	// every run of ones [i,j) and its complement
	for (int i = 0; i <= W; i += (W > 16 ? 3 : 1)) for (int j = i; j <= W; j += (W > 16 ? 5 : 2)) { U v = U((j >= 64 ? ~0ULL : (1ULL << j) - 1) & (i >= 64 ? 0 : ~((1ULL << i) - 1))); unary(T(v)); unary(T(U(~v))); }
	for (int b = 0; b < W; ++b) { unary(T(U(1) << b)); unary(T(U(~U(U(1) << b)))); T x = word<T>(); binary(x, b); binary(T(0), b); binary(T(U(~U(0))), b); binary(T(U(1) << b), b); binary(T(U(U(1) << b) - U(1)), b); binary(T(U(1) << (W - 1)), b); }
	for (int i = 0; i < n; ++i) { T x = word<T>(); unary(x); binary(x, vf::rnd(0, W - 1)); }
}
template<typename T> void net_run(int n) { net(T(0)); net(T(~T(0))); for (int i = 0; i < int(sizeof(T)) * 8; ++i) { net(T(T(1) << i)); net(T(~T(T(1) << i))); } for (int i = 0; i < n; ++i) net(word<T>()); }
int main(int ac, char** av) {
	vf::init(ac, av); int n = vf::thorough() ? 20000 : 700;
#if PART == 1
	type_run<signed char>(n); type_run<unsigned char>(n); type_run<char>(n); type_run<short>(n); type_run<unsigned short>(n); type_run<int>(n); type_run<unsigned>(n);
	vf::tag() = "net"; net_run<unsigned char>(n / 4); net_run<unsigned short>(n); net_run<unsigned>(n); net_run<unsigned long>(n); net_run<unsigned long long>(n);
	for (int i = 0; i < n; ++i) {
		std::uint32_t x = word<std::uint32_t>(); std::uint16_t y = std::uint16_t(word<std::uint16_t>());
		{ vf::Ev e("n"); e("w", 32)("x", L(x))("h", L(sprout::net::htonl(x)))("n", L(sprout::net::ntohl(x)))("rt", L(sprout::net::ntohl(sprout::net::htonl(x)))); e.emit(); }
		{ vf::Ev e("n"); e("w", 16)("x", L(y))("h", L(sprout::net::htons(y)))("n", L(sprout::net::ntohs(y)))("rt", L(sprout::net::ntohs(sprout::net::htons(y)))); e.emit(); }
	}
#else
	type_run<long>(n); type_run<unsigned long>(n); type_run<long long>(n); type_run<unsigned long long>(n);
#endif
	return vf::done();
}
