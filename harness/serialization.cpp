// Integer/float <-> byte sequence conversion: layout, inverse, frame, result pointer.
#include "vp.hpp"
#include <utki/utility.hpp>

// specification: byte i of value v of size n, little/big endian
static uint8_t spec_byte(uint64_t v, size_t n, size_t i, bool be)
{
	size_t sh = be ? 8 * (n - 1 - i) : 8 * i;
	return uint8_t(v >> sh);
}

template <class T>
static void ser(uint8_t* (*f)(T, uint8_t*), bool be)
{
	T v = vp_val<T>("v");
	size_t pad = vp_len("pad"); // bytes before and after: must stay untouched
	size_t total = pad + sizeof(T) + pad;
	uint8_t* buf = static_cast<uint8_t*>(vp_buf("buf", total));
	size_t k = vp_ghost("k");
	vp_requires(k < total);
	uint8_t old = buf[k];
	uint8_t* r = f(v, buf + pad);
	vp_ensures(r == buf + pad + sizeof(T), "result points one past the written bytes");
	if (k < pad || k >= pad + sizeof(T)) {
		vp_ensures(buf[k] == old, "bytes outside the written range are unchanged");
	} else {
		vp_reach("inside");
		vp_ensures(buf[k] == spec_byte(v, sizeof(T), k - pad, be), "byte layout");
	}
}
template <class T>
static void deser(T (*f)(const uint8_t*), uint8_t* (*s)(T, uint8_t*), bool be)
{
	const uint8_t* b = static_cast<const uint8_t*>(vp_bytes("b", sizeof(T), ""));
	T v = f(b);
	vp_reach("deser");
	for (size_t i = 0; i != sizeof(T); ++i) {
		vp_ensures(b[i] == spec_byte(v, sizeof(T), i, be), "decoded value has the given bytes");
	}
	// round trip in both directions
	uint8_t out[sizeof(T)];
	s(v, out);
	for (size_t i = 0; i != sizeof(T); ++i) {
		vp_ensures(out[i] == b[i], "encode(decode(bytes)) == bytes");
	}
	T w = vp_val<T>("w");
	s(w, out);
	vp_ensures(f(out) == w, "decode(encode(v)) == v");
}
#define BOTH(n, T) \
	VP_HARNESS(ser##n##le) { ser<T>(&utki::serialize##n##le, false); } \
	VP_HARNESS(ser##n##be) { ser<T>(&utki::serialize##n##be, true); } \
	VP_HARNESS(deser##n##le) { deser<T>(&utki::deserialize##n##le, &utki::serialize##n##le, false); } \
	VP_HARNESS(deser##n##be) { deser<T>(&utki::deserialize##n##be, &utki::serialize##n##be, true); }
BOTH(16, uint16_t)
BOTH(32, uint32_t)
BOTH(64, uint64_t)
VP_HARNESS(ser8) { ser<uint8_t>(&utki::serialize_le<uint8_t>, false); }
VP_HARNESS(ser8be) { ser<uint8_t>(&utki::serialize_be<uint8_t>, true); }

static float as_float(uint32_t v)
{
	float f;
	std::memcpy(&f, &v, sizeof(f));
	return f;
}
static uint32_t as_bits(float f)
{
	uint32_t v;
	std::memcpy(&v, &f, sizeof(f));
	return v;
}
static void serf(uint8_t* (*f)(float, uint8_t*), bool be)
{
	uint32_t bits = vp_val<uint32_t>("bits");
	size_t pad = vp_len("pad");
	uint8_t* buf = static_cast<uint8_t*>(vp_buf("buf", pad + 4 + pad));
	size_t k = vp_ghost("k");
	vp_requires(k < pad + 4 + pad);
	uint8_t old = buf[k];
	uint8_t* r = f(as_float(bits), buf + pad);
	vp_ensures(r == buf + pad + 4, "result points one past the written bytes");
	if (k < pad || k >= pad + 4) {
		vp_ensures(buf[k] == old, "bytes outside the written range are unchanged");
	} else {
		vp_reach("inside");
		vp_ensures(buf[k] == spec_byte(bits, 4, k - pad, be), "byte layout of the IEEE-754 bits");
	}
}
static void deserf(float (*f)(const uint8_t*), bool be)
{
	const uint8_t* b = static_cast<const uint8_t*>(vp_bytes("b", 4, ""));
	uint32_t v = as_bits(f(b));
	vp_reach("deserf");
	for (size_t i = 0; i != 4; ++i) {
		vp_ensures(b[i] == spec_byte(v, 4, i, be), "decoded float has the given bits");
	}
}
VP_HARNESS(serfle) { serf(&utki::serialize_float_le, false); }
VP_HARNESS(serfbe) { serf(&utki::serialize_float_be, true); }
VP_HARNESS(deserfle) { deserf(&utki::deserialize_float_le, false); }
VP_HARNESS(deserfbe) { deserf(&utki::deserialize_float_be, true); }
