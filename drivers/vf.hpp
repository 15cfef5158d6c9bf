// Recording of calls of the real code as JSON events (one event, or one history of events, per line).
#ifndef VF_HPP
#define VF_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <exception>
#include <iterator>
#include <random>
#include <string>
#include <type_traits>
#include <vector>
#include <algorithm>
#include <unistd.h>

namespace vf {
	inline FILE*& out() { static FILE* f = 0; return f; }
	inline unsigned long& seed() { static unsigned long s = 1; return s; }
	inline bool& thorough() { static bool t = false; return t; }
	inline std::string& current() { static std::string s; return s; }
	inline char* scratch() { static char b[1 << 16]; return b; }
	inline std::string& hist() { static std::string s; return s; }
	inline bool& inhist() { static bool b = false; return b; }
	inline std::string& tag() { static std::string s; return s; } // how the call was made; not part of the event

	inline void die(char const* why) {
		char const* c = current().c_str();
		if (::write(2, why, std::strlen(why))) {}
		if (::write(2, " during ", 8)) {}
		if (::write(2, c, std::strlen(c) > 1500 ? 1500 : std::strlen(c))) {}
		if (::write(2, "\n", 1)) {}
		if (out()) { std::fflush(out()); }
		::_exit(70);
	}
	inline void on_signal(int s) {
		die(s == SIGALRM ? "hang (time limit)" : s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : "signal");
	}
	inline void on_terminate() { die("uncaught exception"); }

	inline std::mt19937& rng() { static std::mt19937 g(12345); return g; }
	inline int rnd(int lo, int hi) { return lo + int(rng()() % (unsigned)(hi - lo + 1)); }
	inline unsigned long long rnd64() { unsigned long long a = rng()(); return (a << 32) | rng()(); }

	// ---- JSON text of values
	inline std::string js(bool b) { return b ? "true" : "false"; }
	inline std::string jnum(long long v) {
		if (v > 2147483646LL || v < -2147483646LL) { return "-2147483647"; } // outside TLC's integers: matches nothing
		char b[32]; std::snprintf(b, sizeof b, "%lld", v); return b;
	}
	inline std::string jnumu(unsigned long long v) { return v > 2147483646ULL ? "-2147483647" : jnum((long long)v); }
	template<typename T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, std::string>::type
	js(T v) {
		return std::is_signed<T>::value ? jnum((long long)v) : jnumu((unsigned long long)v);
	}
	inline std::string js(char v) { return jnum((unsigned char)v); }
	inline std::string js(std::string const& s) {
		std::string r = "\"";
		for (char ch : s) { if (ch == '"' || ch == '\\') r += '\\'; r += ch; }
		return r + "\"";
	}
	inline std::string js(char const* s) { return js(std::string(s)); }
	template<typename T> std::string js(std::vector<T> const& v);
	template<typename It> std::string jseq(It f, It l) {
		std::string r = "["; bool first = true;
		int guard = 0;
		for (; f != l; ++f) {
			if (!first) r += ","; first = false; r += js(*f);
			if (++guard > 5000) { r += ",-2147483647"; break; }
		}
		return r + "]";
	}
	template<typename T> std::string js(std::vector<T> const& v) { return jseq(v.begin(), v.end()); }
	struct raw { std::string s; };
	inline std::string js(raw const& r) { return r.s; }
	template<typename R> raw seq(R const& r) { raw x; x.s = jseq(r.begin(), r.end()); return x; }
	template<typename It> raw seq(It f, It l) { raw x; x.s = jseq(f, l); return x; }
	// bytes of a C string / character sequence
	template<typename S> raw chars(S const& s) {
		raw x; x.s = "["; bool first = true;
		for (auto it = s.begin(); it != s.end(); ++it) { if (!first) x.s += ","; first = false; x.s += jnum((long long)(typename std::make_unsigned<typename std::decay<decltype(*it)>::type>::type)(*it)); }
		x.s += "]"; return x;
	}
	// 64-bit word as 16-bit limbs, least significant first (TLC integers have 32 bits)
	template<typename T> raw limbs(T v, int n = (int)((sizeof(T) + 1) / 2)) {
		raw x; x.s = "["; unsigned long long u = (unsigned long long)v;
		for (int i = 0; i < n; ++i) { if (i) x.s += ","; x.s += jnum((long long)(u & 0xffff)); u >>= 16; }
		x.s += "]"; return x;
	}

	struct Ev {
		std::string s; bool first;
		explicit Ev(char const* op) : first(false) { s = std::string("{\"o\":\"") + op + "\""; current() = s; }
		template<typename T> Ev& operator()(char const* k, T const& v) {
			s += ",\""; s += k; s += "\":"; s += js(v); current() = s; return *this;
		}
		void emit() {
			s += "}";
			if (inhist()) { if (!hist().empty()) hist() += ","; hist() += s; }
			else {
				std::fputs(s.c_str(), out());
				if (!tag().empty()) { std::fputc('\t', out()); std::fputs(tag().c_str(), out()); }
				std::fputc('\n', out());
			}
		}
	};
	// numbers of any size for the specification module Big: base-4096 digits, least first
	inline std::string big_digits(unsigned __int128 v) { std::string r = "["; while (v) { r += std::to_string(int(v & 4095)); v >>= 12; if (v) r += ","; } return r + "]"; }
	inline raw big(unsigned __int128 v) { return raw{big_digits(v)}; }
	inline raw bigz(__int128 v) { return raw{std::string("{\"s\":") + (v < 0 ? "-1" : v > 0 ? "1" : "0") + ",\"m\":" + big_digits(v < 0 ? -(unsigned __int128)v : (unsigned __int128)v) + "}"}; }
	inline void begin_history() { inhist() = true; hist().clear(); }
	inline void end_history() {
		inhist() = false;
		if (!hist().empty()) { std::fputs(("[" + hist() + "]\n").c_str(), out()); }
		hist().clear();
	}

	// all sequences over 0..k-1 of length 0..n
	template<typename F> void all_seqs(int k, int n, F f, int from = 0) {
		for (int len = from; len <= n; ++len) {
			std::vector<int> v(len, 0);
			for (;;) {
				f(v);
				int i = len - 1;
				while (i >= 0 && v[i] == k - 1) { v[i] = 0; --i; }
				if (i < 0) break;
				++v[i];
			}
		}
	}
	inline std::vector<int> rnd_seq(int k, int len, int base = 0) {
		std::vector<int> v(len); for (auto& x : v) x = base + rnd(0, k - 1); return v;
	}

	inline void init(int argc, char** argv) {
		if (argc < 4) { std::fprintf(stderr, "usage: driver OUT SEED TIER\n"); std::exit(71); }
		out() = std::fopen(argv[1], "w");
		if (!out()) { std::perror(argv[1]); std::exit(71); }
		seed() = std::strtoul(argv[2], 0, 10);
		rng().seed(seed() * 7919 + 17);
		thorough() = std::string(argv[3]) == "thorough";
		static char stack[1 << 16];
		stack_t ss; std::memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, 0);
		struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
		sigaction(SIGSEGV, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGALRM, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0);
		std::set_terminate(on_terminate);
		char const* lim = std::getenv("VF_LIMIT"); alarm(lim ? std::atoi(lim) : 150);
	}
	inline int done() { std::fclose(out()); out() = 0; return 0; }

	// ---- iterators of weaker category over an int vector
	template<typename It, typename Cat> struct cat_iter {
		typedef Cat iterator_category;
		typedef typename std::iterator_traits<It>::value_type value_type;
		typedef typename std::iterator_traits<It>::difference_type difference_type;
		typedef typename std::iterator_traits<It>::pointer pointer;
		typedef typename std::iterator_traits<It>::reference reference;
		It i;
		constexpr cat_iter() : i() {}
		constexpr explicit cat_iter(It x) : i(x) {}
		constexpr reference operator*() const { return *i; }
		cat_iter& operator++() { ++i; return *this; }
		cat_iter operator++(int) { cat_iter t(*this); ++i; return t; }
		template<typename C = Cat, typename = typename std::enable_if<std::is_base_of<std::bidirectional_iterator_tag, C>::value>::type>
		cat_iter& operator--() { --i; return *this; }
		template<typename C = Cat, typename = typename std::enable_if<std::is_base_of<std::bidirectional_iterator_tag, C>::value>::type>
		cat_iter operator--(int) { cat_iter t(*this); --i; return t; }
		friend constexpr bool operator==(cat_iter const& a, cat_iter const& b) { return a.i == b.i; }
		friend constexpr bool operator!=(cat_iter const& a, cat_iter const& b) { return !(a.i == b.i); }
	};
	typedef cat_iter<int const*, std::forward_iterator_tag> fwd;
	typedef cat_iter<int const*, std::bidirectional_iterator_tag> bid;
	typedef cat_iter<int*, std::forward_iterator_tag> mfwd;
	typedef cat_iter<int*, std::bidirectional_iterator_tag> mbid;
}
#endif
