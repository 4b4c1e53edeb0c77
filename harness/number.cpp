// printing and parsing integers
#include "vp.hpp"
#include <stdexcept>
#include <system_error>
#include <type_traits>
#include <utki/string.hpp>
static unsigned digit(char c) // value of a digit, 99: not a digit
{
	return c >= '0' && c <= '9' ? unsigned(c - '0') : c >= 'a' && c <= 'z' ? unsigned(c - 'a') + 10 : c >= 'A' && c <= 'Z' ? unsigned(c - 'A') + 10 : 99;
}
static bool is_sp(char c)
{
	return VP_OR(VP_OR(VP_OR(c == ' ', c == '\n'), VP_OR(c == '\t', c == '\r')), VP_OR(c == '\v', c == '\f'));
}
// most digits a number can have
static constexpr size_t most(unsigned bits, int base) { return base == 2 ? bits : base == 8 ? (bits + 2) / 3 : base == 16 ? bits / 4 : bits == 8 ? 3 : bits == 16 ? 5 : bits == 32 ? 10 : 20; }

// the number, its numeral in base B: L characters at D, of them the first S (0 or 1) are the sign
static uint64_t V;
static int B;
static const char* D;
static size_t L;
// text to parse, where (in it) a number is to be read, in which base; what is to be read
static const char* X;
static size_t N, AT, END;
static size_t W; // whitespace in front of what is read
static bool SPACE; // W is set
static bool KNOWN; // the text at AT is the numeral above
static int CALLS, BASE;
static uint64_t READ;
static int HOW; // 0: a number, 1: a number out of range, 2: no number

#ifdef VP_PROOF
// contracts of std::to_chars and std::from_chars for integers (C++ standard, [charconv])
template <class T>
static std::to_chars_result to_chars(char* first, char* last, T value, int base)
{
	vp_ensures(vp_readable(first, last - first), "precondition: room for the characters");
	vp_ensures(uint64_t(value) == V && base == B, "precondition: the number and base given");
	if (size_t(last - first) < L) return {last, std::errc::value_too_large};
	memcpy(first, D, L);
	return {first + L, std::errc()};
}
template <class T>
static std::from_chars_result from_chars(const char* first, const char* last, T& value, int base)
{
	vp_ensures(vp_readable(first, last - first) && vp_same_object(first, X), "precondition: readable text");
	size_t at = first - X;
	vp_ensures(last == X + N, "precondition: the number is read from all of the text that is left");
	++CALLS;
	if (KNOWN) {
		// leading zeros do not matter
		if (base == B && (at == AT || (B != 10 && at + 1 == AT && X[at] == '0'))) {
			value = T(V);
			return {X + END, std::errc()};
		}
		value = T(vp_any("other value", sizeof(T) * 8));
		return {X + N, std::errc()};
	}
	BASE = base;
	if (at + 1 == AT && base == 8 && X[at] == '0') at = AT;
	vp_ensures(at == AT, "the number is read from its first digit");
	if (HOW == 2) return {first, std::errc::invalid_argument};
	if (HOW == 0) value = T(READ);
	return {X + END, HOW == 0 ? std::errc() : std::errc::result_out_of_range};
}
#	define CONTRACTS(T, n) \
		extern "C" std::to_chars_result vpc_to_chars_##n(char* f, char* l, T v, int b) { return to_chars<T>(f, l, v, b); } \
		extern "C" std::from_chars_result vpc_from_chars_##n(const char* f, const char* l, T& v, int b) { return from_chars<T>(f, l, v, b); }
CONTRACTS(unsigned char, u8)
CONTRACTS(unsigned short, u16)
CONTRACTS(unsigned int, u32)
CONTRACTS(unsigned long, u64)
CONTRACTS(signed char, i8)
CONTRACTS(short, i16)
CONTRACTS(int, i32)
CONTRACTS(long, i64)
// contract of string_parser::skip_whitespaces (proved for C06)
extern "C" void vpc_skip_whitespaces(std::string_view* v)
{
	if (SPACE && v->data() == X && v->size() == N) {
		v->remove_prefix(W);
		return;
	}
	size_t w = vp_any("w", 64);
	vp_requires(w <= v->size());
	if (w < v->size()) vp_requires(!is_sp((*v)[w]));
	if (w > 0) vp_requires(is_sp((*v)[0]));
	v->remove_prefix(w);
}
#endif
static utki::integer_base enum_of(int base)
{
	return base == 2 ? utki::integer_base::bin : base == 8 ? utki::integer_base::oct : base == 16 ? utki::integer_base::hex : utki::integer_base::dec;
}
template <class T, int base>
static void round_trip()
{
	T v = T(vp_any("v", sizeof(T) * 8));
	V = uint64_t(v);
	B = base;
	bool neg = v < 0;
	const char* prefix = std::is_signed_v<T> || base == 10 ? "" : base == 2 ? "0b" : base == 8 ? "0" : "0x";
	const size_t pl = std::is_signed_v<T> || base == 10 ? 0 : base == 8 ? 1 : 2;
	static char own[80];
	if (vp_native()) {
		// the numeral, written independently
		size_t p = 80;
		uint64_t m = neg ? uint64_t(0) - V : V;
		do {
			own[--p] = "0123456789abcdef"[m % base];
			m /= base;
		} while (m);
		if (neg) own[--p] = '-';
		D = own + p;
		L = 80 - p;
	} else {
		// what is known about a numeral: characters are digits of the base; no leading zeros
		L = vp_any("l", 64);
		vp_requires(L >= 1 && L <= most(sizeof(T) * 8, base) + neg);
		D = static_cast<const char*>(vp_bytes("d", L, ""));
		vp_requires(neg ? D[0] == '-' && L >= 2 : VP_AND(digit(D[0]) < unsigned(base), (D[0] == '0') == (v == 0)));
		if (v == 0) vp_requires(L == 1);
		if (neg) vp_requires(digit(D[1]) < unsigned(base));
	}
	std::string s = utki::to_string(v, enum_of(base));
	size_t k = vp_ghost("k");
	vp_reach("printed");
	vp_ensures(s.size() == pl + L, "length of the printed number");
	if (s.size() != pl + L) return;
	if (pl > 0) vp_ensures(s[0] == prefix[0], "prefix");
	if (pl > 1) vp_ensures(s[1] == prefix[1], "prefix");
	if (k < L) vp_ensures(s[pl + k] == D[k], "digits");
	// read it back, with any text that can not belong to the number behind it
	if (base != 10 && std::is_signed_v<T>) return;
	size_t rest = vp_len("rest");
	const char* r = static_cast<const char*>(vp_bytes("r", rest, " ,.x0b"));
	if (rest != 0) vp_requires(digit(r[0]) == 99);
	s.append(r, rest);
	X = s.data();
	N = s.size();
	KNOWN = true;
	AT = pl;
	END = pl + L;
	CALLS = 0;
	utki::string_parser p{std::string_view(s)};
	T got = p.read_number<T>();
	vp_reach("read");
	vp_ensures(got == v, "the same number is read");
	vp_ensures(p.get_view().size() == rest, "exactly the printed text is consumed");
	if (rest != 0 && p.get_view().size() == rest) vp_ensures(p.get_view().data() == X + END, "what follows is left");
}
#define ROUND(T, n) \
	VP_HARNESS(round_##n##_dec) { round_trip<T, 10>(); } \
	VP_HARNESS(round_##n##_hex) { round_trip<T, 16>(); } \
	VP_HARNESS(round_##n##_oct) { round_trip<T, 8>(); } \
	VP_HARNESS(round_##n##_bin) { round_trip<T, 2>(); }
ROUND(unsigned char, u8)
ROUND(unsigned short, u16)
ROUND(unsigned int, u32)
ROUND(unsigned long, u64)
ROUND(signed char, i8)
ROUND(short, i16)
ROUND(int, i32)
ROUND(long, i64)

// reading any text
template <class T>
static void read()
{
	N = vp_len("n");
	X = static_cast<const char*>(vp_bytes("x", N, "00xb17  9afFx-"));
	KNOWN = false;
	CALLS = 0;
	// the text after whitespace
	size_t w = 0;
	if (vp_native())
		while (w != N && is_sp(X[w])) ++w;
	else {
		w = vp_any("w", 64);
		vp_requires(w <= N);
		if (w < N) vp_requires(!is_sp(X[w]));
		if (w > 0) vp_requires(is_sp(X[0]));
	}
	W = w;
	SPACE = true;
	bool none = w == N, zero = false;
	int base = 10;
	AT = w;
	if (!none && std::is_unsigned_v<T> && X[w] == '0') {
		if (w + 1 == N) zero = true;
		else if (X[w + 1] == 'x' || X[w + 1] == 'b') {
			int b = X[w + 1] == 'x' ? 16 : 2;
			if (w + 2 < N && digit(X[w + 2]) < unsigned(b)) {
				base = b;
				AT = w + 2;
			} else
				zero = true;
		} else if (X[w + 1] >= '0' && X[w + 1] <= '9') {
			AT = w + 1;
			base = X[w + 1] <= '7' ? 8 : 10;
		} else
			zero = true;
	}
	bool starts = !none && (digit(X[AT]) < unsigned(base) || (std::is_signed_v<T> && X[AT] == '-' && AT + 1 < N && digit(X[AT + 1]) < unsigned(base)));
	if (vp_native()) {
		// independent reading
		END = AT;
		bool neg = starts && X[AT] == '-';
		if (neg) ++END;
		unsigned __int128 m = 0;
		bool over = false;
		unsigned __int128 lim = neg ? (unsigned __int128)(std::make_unsigned_t<T>(std::numeric_limits<T>::max())) + 1 : (unsigned __int128)(std::make_unsigned_t<T>(std::numeric_limits<T>::max()));
		while (END < N && digit(X[END]) < unsigned(base)) {
			m = m * base + digit(X[END]);
			if (m > lim) {
				over = true;
				m = lim;
			}
			++END;
		}
		READ = neg ? uint64_t(0) - uint64_t(m) : uint64_t(m);
		HOW = !starts ? 2 : over ? 1 : 0;
	} else {
		HOW = starts ? int(vp_any("out of range", 1)) : 2;
		READ = uint64_t(T(vp_any("number", sizeof(T) * 8)));
		END = vp_any("end", 64);
		if (starts) vp_requires(AT < END && END <= N);
	}
	utki::string_parser p{std::string_view(X, N)};
	bool thrown = false;
	T got = 0;
	try {
		got = p.read_number<T>();
	} catch (std::invalid_argument&) {
		thrown = true;
	}
	vp_reach("done");
	std::string_view left = p.get_view();
	if (none) {
		vp_ensures(thrown, "nothing to read");
		return;
	}
	if (zero) {
		vp_ensures(!thrown && got == 0, "a 0 that is not followed by digits is zero");
		vp_ensures(left.size() == N - w - 1 && (left.empty() || left.data() == X + w + 1), "the parser is right behind the 0");
		return;
	}
	vp_ensures(thrown == (HOW == 2), "text that does not start with a number is rejected, only that");
	if (thrown) return;
	vp_reach("number");
	vp_ensures(vp_native() || (CALLS == 1 && BASE == base), "the number is read in the base of its prefix");
	if (HOW == 0) vp_ensures(got == T(READ), "the number");
	vp_ensures(left.size() == N - END && (left.empty() || left.data() == X + END), "exactly the number is consumed");
}
VP_HARNESS(read_u8) { read<unsigned char>(); }
VP_HARNESS(read_u16) { read<unsigned short>(); }
VP_HARNESS(read_u32) { read<unsigned int>(); }
VP_HARNESS(read_u64) { read<unsigned long>(); }
VP_HARNESS(read_i8) { read<signed char>(); }
VP_HARNESS(read_i16) { read<short>(); }
VP_HARNESS(read_i32) { read<int>(); }
VP_HARNESS(read_i64) { read<long>(); }
