// deserializer: every read consumes exactly its bytes, short data is rejected without any effect.
#include "vp.hpp"
#include <utki/deserializer.hpp>
#include <stdexcept>

static const uint8_t* D;
static size_t N;
static void data()
{
	N = vp_len("n");
	D = static_cast<const uint8_t*>(vp_bytes("d", N, ""));
}
static uint64_t spec(const uint8_t* p, size_t n, bool be)
{
	uint64_t v = 0;
	for (size_t i = 0; i != n; ++i) v |= uint64_t(p[i]) << 8 * (be ? n - 1 - i : i);
	return v;
}
// rest of the data is exactly [pos, N)
static void rest(utki::deserializer& d, size_t pos)
{
	vp_ensures(d.size() == N - pos, "exactly the bytes read are consumed");
	vp_ensures(d.empty() == (N == pos), "empty() iff nothing is left");
	if (N > pos) {
		auto s = d.read_span(N - pos);
		vp_ensures(s.data() == D + pos && s.size() == N - pos, "the remaining bytes are those after the bytes read");
		vp_ensures(d.empty(), "nothing left after reading everything");
	}
}
template <class T>
static void number(T (utki::deserializer::*f)(), bool be)
{
	data();
	size_t off = vp_len("off");
	vp_requires(off <= N);
	utki::deserializer d(utki::make_span(D, N));
	vp_ensures(d.size() == N && d.empty() == (N == 0), "size of the data");
	d.skip(off);
	bool thrown = false;
	T v = 0;
	try {
		v = (d.*f)();
	} catch (std::invalid_argument&) {
		thrown = true;
	}
	vp_ensures(thrown == (N - off < sizeof(T)), "rejected exactly when there are too few bytes");
	if (thrown) {
		vp_reach("short");
		rest(d, off);
	} else {
		vp_reach("read");
		if (N - off < sizeof(T)) return;
		uint64_t bits = 0;
		std::memcpy(&bits, &v, sizeof(T));
		vp_ensures(bits == spec(D + off, sizeof(T), be), "value of the bytes");
		rest(d, off + sizeof(T));
	}
}
#define NUM(n, T, be) VP_HARNESS(n) { number<T>(&utki::deserializer::read_##n, be); }
NUM(uint8, uint8_t, false)
NUM(uint16_le, uint16_t, false)
NUM(uint32_le, uint32_t, false)
NUM(uint64_le, uint64_t, false)
NUM(float_le, float, false)
NUM(uint16_be, uint16_t, true)
NUM(uint32_be, uint32_t, true)
NUM(uint64_be, uint64_t, true)
NUM(float_be, float, true)

// 0: read_string, 1: read_span, 2: skip
static void bytes(int what)
{
	data();
	size_t off = vp_len("off");
	vp_requires(off <= N);
	size_t len = vp_any("length", 64); // any length, also absurd ones
	utki::deserializer d(utki::make_span(D, N));
	d.skip(off);
	bool thrown = false;
	const void* p = nullptr;
	size_t n = 0;
	try {
		if (what == 0) {
			auto s = d.read_string(len);
			p = s.data();
			n = s.size();
		} else if (what == 1) {
			auto s = d.read_span(len);
			p = s.data();
			n = s.size();
		} else d.skip(len);
	} catch (std::invalid_argument&) {
		thrown = true;
	}
	vp_ensures(thrown == (N - off < len), "rejected exactly when there are too few bytes");
	if (thrown) {
		vp_reach("short");
		rest(d, off);
	} else {
		vp_reach("read");
		if (N - off < len) return;
		if (what != 2) vp_ensures(n == len && (len == 0 || p == D + off), "the bytes at the current position are returned");
		rest(d, off + len);
	}
}
VP_HARNESS(read_string) { bytes(0); }
VP_HARNESS(read_span) { bytes(1); }
VP_HARNESS(skip) { bytes(2); }
