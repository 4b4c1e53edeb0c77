// version: order of (major, minor)
#include "vp.hpp"
#include <string_view>
#include <utki/version.hpp>
static utki::version_duplet ver(const char* n)
{
	uint32_t v = uint32_t(vp_any(n, 32));
	if (vp_search()) v &= 0x01ff01ffu; // equal and nearly equal numbers often
	return utki::version_duplet{uint16_t(v >> 16), uint16_t(v)};
}
static bool less(uint16_t ma, uint16_t mi, uint16_t mb, uint16_t mj)
{
	return ma < mb ? true : ma == mb ? mi < mj : false;
}
static bool lt(const utki::version_duplet& a, const utki::version_duplet& b)
{
	return less(a.major, a.minor, b.major, b.minor);
}
VP_HARNESS(version)
{
	auto a = ver("a"), b = ver("b");
	bool l = lt(a, b);
	vp_ensures((a < b) == l, "less-than orders by major, then minor");
	vp_ensures((a >= b) == !l, "at-least is the exact opposite of less-than");
	vp_ensures(a.to_uint32_t() == uint32_t(a.major) * 0x10000u + a.minor, "packed number");
	vp_ensures((a.to_uint32_t() < b.to_uint32_t()) == l, "packing preserves the order");
	vp_reach("done");
}
