// UTF-8 encoding and decoding.
#include "vp.hpp"
#include <utki/unicode.hpp>

// specification: the (original, up to 6 byte) UTF-8 encoding of c, 0 < c < 2^31
static unsigned enc_len(uint32_t c)
{
	return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
}
static uint8_t cont(uint32_t c, unsigned k) // k-th continuation byte counted from the end
{
	if (k == 0) return uint8_t(0x80 | (c & 0x3f));
	if (k == 1) return uint8_t(0x80 | ((c >> 6) & 0x3f));
	if (k == 2) return uint8_t(0x80 | ((c >> 12) & 0x3f));
	if (k == 3) return uint8_t(0x80 | ((c >> 18) & 0x3f));
	return uint8_t(0x80 | ((c >> 24) & 0x3f));
}
static uint8_t enc_byte(uint32_t c, unsigned j)
{
	if (c < 0x80) return j == 0 ? uint8_t(c) : 0;
	if (c < 0x800) return j == 0 ? uint8_t(0xc0 | (c >> 6)) : cont(c, 1 - j);
	if (c < 0x10000) return j == 0 ? uint8_t(0xe0 | (c >> 12)) : cont(c, 2 - j);
	if (c < 0x200000) return j == 0 ? uint8_t(0xf0 | (c >> 18)) : cont(c, 3 - j);
	if (c < 0x4000000) return j == 0 ? uint8_t(0xf8 | (c >> 24)) : cont(c, 4 - j);
	return j == 0 ? uint8_t(0xfc | (c >> 30)) : cont(c, 5 - j);
}
// every code point: bytes, terminator, and decoding them gives the code point back
VP_HARNESS(encode)
{
	uint32_t c = vp_val<uint32_t>("c");
	auto r = utki::to_utf8(char32_t(c));
	if (c >= 0x80000000u) {
		vp_reach("too big");
		vp_ensures(r[0] == 0, "a value which has no encoding gives an empty string");
		return;
	}
	unsigned n = enc_len(c);
	for (unsigned j = 0; j != n; ++j) vp_ensures(uint8_t(r[j]) == enc_byte(c, j), "encoded byte");
	vp_ensures(r[n] == 0, "encoding is null-terminated");
	if (c == 0) return;
	vp_reach("round trip");
	utki::utf8_iterator i(std::string_view(r.data(), n));
	vp_ensures(!i.is_end(), "encoded character is not the end of the string");
	vp_ensures(uint32_t(i.character()) == c, "decode(encode(c)) == c");
	++i;
	vp_ensures(i.is_end(), "exactly one character was encoded");
	++i;
	vp_ensures(i.is_end() && i.character() == 0, "the end is stable");
	utki::utf8_iterator z(r.data());
	vp_ensures(uint32_t(z.character()) == c, "decode(encode(c)) == c, null-terminated");
	++z;
	vp_ensures(z.is_end(), "exactly one character was encoded, null-terminated");
}
// decoding any bytes whatsoever: stays within the bytes given, ends, at most one character per byte
VP_HARNESS(decode_any)
{
	size_t n = vp_len("n");
	const uint8_t* s = static_cast<const uint8_t*>(vp_bytes("s", n, "a\x80\xc3\xe2\xf0\xf8\xfc\xfe\xff\xbf"));
	auto r = utki::to_utf32(utki::make_span(s, n));
	vp_reach("decoded");
	vp_ensures(r.size() <= n, "at most one character per byte");
}
VP_HARNESS(decode_any_iter)
{
	size_t n = vp_len("n");
	const uint8_t* s = static_cast<const uint8_t*>(vp_bytes("s", n, "a\x80\xc3\xe2\xf0\xf8\xfc\xfe\xff\xbf"));
	auto r = utki::to_utf32(utki::utf8_iterator(utki::make_span(s, n)));
	vp_reach("decoded");
	vp_ensures(r.size() <= n, "at most one character per byte");
}
VP_HARNESS(decode_any_view)
{
	size_t n = vp_len("n");
	auto s = vp_string("s", n, "a\x80\xc3\xe2\xf0\xf8\xfc\xfe\xff\xbf");
	auto r = utki::to_utf32(s);
	vp_reach("decoded");
	vp_ensures(r.size() <= n, "at most one character per byte");
}
VP_HARNESS(decode_any_cstr)
{
	size_t n = vp_len("n");
	auto s = vp_string("s", n, "a\x80\xc3\xe2\xf0\xf8\xfc\xfe\xff\xbf");
	vp_requires(n != 0);
	if (vp_native()) const_cast<char&>(s[n - 1]) = 0;
	vp_requires(s[n - 1] == 0);
	auto r = utki::to_utf32(s.data());
	vp_reach("decoded");
	vp_ensures(r.size() < n, "at most one character per byte");
}
// one decoding step anywhere in a string: the character and where the next one starts
VP_HARNESS(decode_step)
{
	size_t n = vp_len("n");
	const uint8_t* s = static_cast<const uint8_t*>(vp_bytes("s", n, "a\x80\xc3\xe2\xf0\xf8\xfc\xbf"));
	uint32_t c = vp_val<uint32_t>("c");
	if (vp_search() && c >= 0x80000000u) c &= 0x7fffffff;
	vp_requires(c != 0 && c < 0x80000000u);
	unsigned l = enc_len(c);
	vp_requires(n >= l);
	if (vp_native())
		for (unsigned j = 0; j != l; ++j) const_cast<uint8_t&>(s[j]) = enc_byte(c, j);
	for (unsigned j = 0; j != l; ++j) vp_requires(s[j] == enc_byte(c, j));
	utki::utf8_iterator a(utki::make_span(s, n));
	vp_ensures(uint32_t(a.character()) == c, "first character");
	++a;
	utki::utf8_iterator b(utki::make_span(s + l, n - l));
	vp_reach("step");
	vp_ensures(a.character() == b.character(), "second character starts after the bytes of the first");
	++a;
	++b;
	vp_ensures(a.character() == b.character(), "third character is where it is for the rest of the string");
}

// whole strings: X is a string of m code points
static const uint32_t* X;
static size_t m;
static size_t K; // arbitrary position
static uint64_t x_at(uint64_t i) { return i < m ? X[i] : 0; }
// P(i): number of bytes of the encoding of the first i code points
#ifdef VP_PROOF
static uint64_t P(uint64_t i) { return vp_fun("P", i); }
#else
static uint64_t P(uint64_t i)
{
	uint64_t r = 0;
	for (uint64_t j = 0; j != i; ++j) r += enc_len(uint32_t(x_at(j)));
	return r;
}
#endif
static unsigned x_len(uint64_t i) { return i < m ? enc_len(uint32_t(x_at(i))) : 0; }
// definition of P, and its monotonicity w.r.t. the arbitrary position K
static bool ax_P(uint64_t i)
{
	bool r = VP_AND(VP_IMPLIES(i == 0, P(i) == 0), P(i + 1) == P(i) + x_len(i));
	r = VP_AND(r, VP_IMPLIES(K < i, P(K) + x_len(K) <= P(i)));
	r = VP_AND(r, VP_IMPLIES(K > i, P(i) + x_len(i) <= P(K)));
	r = VP_AND(r, VP_IMPLIES(i <= m, P(i) <= P(m)));
	r = VP_AND(r, VP_IMPLIES(i < m, P(i) + x_len(i) <= P(m)));
	return r;
}
static bool ax_X(uint64_t i)
{
	return VP_IMPLIES(i < m, VP_AND(x_at(i) != 0, x_at(i) < 0x80000000u));
}
static void code_points()
{
	m = vp_len("m");
	X = static_cast<const uint32_t*>(vp_bytes("x", 4 * m, ""));
	K = vp_ghost("k");
	if (vp_native()) {
		auto w = const_cast<uint32_t*>(X);
		for (size_t i = 0; i != m; ++i) {
			w[i] &= 0x7fffffffu >> (w[i] % 27); // all lengths of encodings
			if (w[i] == 0) w[i] = 0x20ac;
		}
	}
	vp_requires(K < m);
	vp_axiom(&ax_X);
	vp_axiom(&ax_P);
	vp_use(K);
	vp_use(m);
	vp_hint_fn(&P);
}
VP_HARNESS(encode_string)
{
	code_points();
	size_t j = vp_ghost("j");
	uint32_t c = uint32_t(x_at(K));
	vp_requires(j < enc_len(c));
	vp_hint_elem(P(K) + j, enc_byte(c, unsigned(j)), 1);
	auto r = utki::to_utf8(utki::make_span(reinterpret_cast<const char32_t*>(X), m));
	vp_reach("encoded");
	vp_ensures(r.size() == P(m), "length is the sum of the lengths of the encoded characters");
	vp_ensures(P(K) + j < r.size() && uint8_t(r[P(K) + j]) == enc_byte(c, unsigned(j)), "the encodings stand one after another");
}
// B holds the encodings of X one after another
static const uint8_t* B;
static size_t NB;
static bool b_is(uint64_t i, unsigned j)
{
	uint64_t p = P(i) + j;
	return j < x_len(i) && p < NB ? B[p] == enc_byte(uint32_t(x_at(i)), j) : true;
}
static bool ax_B(uint64_t i)
{
	bool r = VP_AND(b_is(i, 0), VP_AND(b_is(i, 1), b_is(i, 2)));
	return VP_AND(r, VP_AND(b_is(i, 3), VP_AND(b_is(i, 4), b_is(i, 5))));
}
static void encoded()
{
	code_points();
	if (vp_native()) {
		std::string e;
		for (size_t i = 0; i != m; ++i)
			for (unsigned j = 0; j != enc_len(X[i]); ++j) e += char(enc_byte(X[i], j));
		NB = e.size();
		auto w = static_cast<uint8_t*>(vp_buf("b", NB));
		for (size_t i = 0; i != NB; ++i) w[i] = uint8_t(e[i]);
		B = w;
	} else {
		NB = P(m);
		B = static_cast<const uint8_t*>(vp_bytes("b", NB, ""));
	}
	vp_axiom(&ax_B);
	vp_hint_fn(&x_at);
	vp_hint_elem(K, x_at(K), 4);
}
VP_HARNESS(decode_string)
{
	encoded();
	auto r = utki::to_utf32(utki::make_span(B, NB));
	vp_reach("decoded");
	vp_ensures(r.size() == m, "one character for every encoding");
	vp_ensures(K < r.size() && r[K] == x_at(K), "decode(encode(string)) == string");
}
VP_HARNESS(decode_string_iter)
{
	encoded();
	auto r = utki::to_utf32(utki::utf8_iterator(std::string_view(reinterpret_cast<const char*>(B), NB)));
	vp_reach("decoded");
	vp_ensures(r.size() == m, "one character for every encoding");
	vp_ensures(K < r.size() && r[K] == x_at(K), "decode(encode(string)) == string");
}
