// base64 decoding: for every input string.
#include "vp.hpp"
#include <utki/base64.hpp>
#include <stdexcept>

// RFC 4648 table, characters outside the alphabet decode as 0
static uint32_t spec_dec(char ch)
{
	uint8_t c = uint8_t(ch);
	uint32_t r = 0;
	if (c >= 'A' && c <= 'Z') r = c - 'A';
	if (c >= 'a' && c <= 'z') r = c - 'a' + 26;
	if (c >= '0' && c <= '9') r = c - '0' + 52;
	if (c == '+') r = 62;
	if (c == '/') r = 63;
	return r;
}
static uint32_t spec_quad(char a, char b, char c, char d)
{
	return spec_dec(a) << 18 | spec_dec(b) << 12 | spec_dec(c) << 6 | spec_dec(d);
}
// payload length: trailing padding (at most two characters) does not count
static size_t payload(std::string_view s)
{
	size_t m = s.size();
	if (m != 0 && s[m - 1] == '=') {
		--m;
		if (m != 0 && s[m - 1] == '=') --m;
	}
	return m;
}
static char at(std::string_view s, size_t i)
{
	return i < s.size() ? s[i] : 'A';
}
VP_HARNESS(base64)
{
	size_t n = vp_len("n");
	std::string_view s = vp_string("s", n, "AZaz09+/=b\x80\xff ");
	size_t q = vp_ghost("q"); // arbitrary group of 4 characters
	size_t m = payload(s);
	bool padded = m != n;
	uint32_t hv = spec_quad(at(s, 4 * q), at(s, 4 * q + 1), at(s, 4 * q + 2), at(s, 4 * q + 3));
	vp_hint_elem(3 * q, uint8_t(hv >> 16), 1);
	vp_hint_elem(3 * q + 1, uint8_t(hv >> 8), 1);
	vp_hint_elem(3 * q + 2, uint8_t(hv), 1);
	try {
		auto r = utki::base64_decode(s);
		vp_reach("decoded");
		vp_ensures(!padded || n >= 4, "padding without a complete group is rejected");
		vp_ensures(padded || n % 4 != 1, "a single leftover character is rejected");
		size_t quads = padded ? n / 4 - 1 : n / 4;
		size_t rest = m - 4 * quads;
		if (rest >= 4) return; // wrongly padded text (more padding than the group needs): any bytes
		size_t expected = 3 * quads + (rest >= 2 ? rest - 1 : 0);
		vp_ensures(r.size() == expected, "decoded size");
		if (r.size() != expected) return;
		if (q < quads) {
			uint32_t v = spec_quad(s[4 * q], s[4 * q + 1], s[4 * q + 2], s[4 * q + 3]);
			vp_reach("full group");
			vp_ensures(r[3 * q] == uint8_t(v >> 16), "first byte of a group");
			vp_ensures(r[3 * q + 1] == uint8_t(v >> 8), "second byte of a group");
			vp_ensures(r[3 * q + 2] == uint8_t(v), "third byte of a group");
		}
		if (rest >= 2) {
			uint32_t v = spec_quad(s[4 * quads], s[4 * quads + 1], rest == 3 ? s[4 * quads + 2] : 'A', 'A');
			vp_reach("tail");
			vp_ensures(r[3 * quads] == uint8_t(v >> 16), "first byte of the last group");
			if (rest == 3) vp_ensures(r[3 * quads + 1] == uint8_t(v >> 8), "second byte of the last group");
		}
	} catch (std::invalid_argument&) {
		vp_reach("rejected");
		vp_ensures(!(padded ? n % 4 == 0 : n % 4 != 1), "only malformed text is rejected");
	}
}
