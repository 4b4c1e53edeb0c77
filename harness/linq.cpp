// query operations
#include "vp.hpp"
#include "rbtree.hpp"
#include <algorithm>
#include <utki/linq.hpp>
using V32 = std::vector<uint32_t>;
// any function of a value (and its index)
static uint64_t mix(uint64_t x)
{
	x *= 0x9e3779b97f4a7c15u;
	return (x ^ x >> 32) + 7;
}
static uint64_t F(uint64_t x) { return vp_native() ? mix(x) : vp_fun("f", x); }
static uint16_t f1(uint32_t x) { return uint16_t(F(x)); }
static uint32_t f2(uint32_t x, size_t i) { return uint32_t(F(x ^ (uint64_t(i) << 32))); }

static size_t N;
static const uint32_t* A;
static void input()
{
	N = vp_len("n");
	A = static_cast<const uint32_t*>(vp_bytes("a", N * 4, "abab\0\0\0\1"));
}
template <class R, class E>
static void check_map(R&& r, size_t k, E want)
{
	vp_reach("done");
	vp_ensures(r.size() == N, "one result for each element");
	if (k < N && r.size() == N) {
		vp_reach("element");
		vp_ensures(r[k] == want, "the result for each element in order");
	}
}
VP_HARNESS(select)
{
	input();
	size_t k = vp_ghost("k");
	uint16_t want = k < N ? f1(A[k]) : 0;
	V32 v(A, A + N);
	vp_hint_elem(k, want, 2);
	auto r = utki::linq(v).select([](uint32_t x) { return f1(x); }).get();
	check_map(r, k, want);
	vp_ensures(v.size() == N && (k < N ? v[k] == A[k] : true), "the collection is unchanged");
}
VP_HARNESS(select_const)
{
	input();
	size_t k = vp_ghost("k");
	uint16_t want = k < N ? f1(A[k]) : 0;
	const V32 v(A, A + N);
	vp_hint_elem(k, want, 2);
	auto r = utki::linq(v).select([](const uint32_t& x) { return f1(x); }).get();
	check_map(r, k, want);
}
VP_HARNESS(select_rvalue)
{
	input();
	size_t k = vp_ghost("k");
	uint16_t want = k < N ? f1(A[k]) : 0;
	V32 v(A, A + N);
	vp_hint_elem(k, want, 2);
	auto r = utki::linq(std::move(v)).select([](uint32_t&& x) { return f1(x); }).get();
	check_map(r, k, want);
}
VP_HARNESS(select_index)
{
	input();
	size_t k = vp_ghost("k");
	uint32_t want = k < N ? f2(A[k], k) : 0;
	V32 v(A, A + N);
	vp_hint_elem(k, want, 4);
	auto r = utki::linq(v).select([](uint32_t x, size_t i) { return f2(x, i); }).get();
	check_map(r, k, want);
	vp_ensures(v.size() == N && (k < N ? v[k] == A[k] : true), "the collection is unchanged");
}
VP_HARNESS(select_index_rvalue)
{
	input();
	size_t k = vp_ghost("k");
	uint32_t want = k < N ? f2(A[k], k) : 0;
	V32 v(A, A + N);
	vp_hint_elem(k, want, 4);
	auto r = utki::linq(std::move(v)).select([](uint32_t&& x, size_t i) { return f2(x, i); }).get();
	check_map(r, k, want);
}

// collections of at most 4 elements in the proof, any in the native search
struct rec {
	uint32_t key;
	explicit rec(uint32_t k) : key(k) {}
};
using VR = std::vector<rec>;
static void few()
{
	N = vp_native() ? vp_len("n") : vp_any("n", 3);
	if (!vp_native()) vp_requires(N <= 4);
	A = static_cast<const uint32_t*>(vp_bytes("a", vp_native() ? N * 4 : 16, "abcd"));
}
static uint32_t key_of(size_t i) { return vp_native() ? A[i] & 3 : A[i]; }
static bool accepted(uint32_t x) { return vp_native() ? (x & 1) != 0 : vp_fun("p", x) & 1; }
static VR make()
{
	VR v;
	for (size_t i = 0; i != N; ++i) v.push_back(rec(key_of(i)));
	return v;
}
static void check_where(const VR& r)
{
	vp_reach("done");
	size_t n = 0;
	for (size_t i = 0; i != N; ++i) {
		uint32_t x = key_of(i);
		if (accepted(x)) {
			vp_ensures(n < r.size(), "no element that is accepted is left out");
			if (n >= r.size()) return;
			vp_ensures(r[n].key == x, "the elements that are accepted in order");
			++n;
		}
	}
	vp_ensures(n == r.size(), "nothing else");
}
static void check_same(const VR& v)
{
	vp_ensures(v.size() == N, "the collection is unchanged");
	if (v.size() == N)
		for (size_t i = 0; i != N; ++i) vp_ensures(v[i].key == key_of(i), "the collection is unchanged");
}
VP_HARNESS(where_4)
{
	few();
	VR v = make();
	VR r = utki::linq(v).where([](const rec& x) { return accepted(x.key); }).get();
	check_where(r);
	check_same(v);
}
VP_HARNESS(where_rvalue_4)
{
	few();
	VR r = utki::linq(make()).where([](const rec& x) { return accepted(x.key); }).get();
	check_where(r);
}
// how often an element is in the collection
static unsigned count(uint32_t x)
{
	unsigned n = 0;
	for (size_t i = 0; i != N; ++i) n += key_of(i) == x;
	return n;
}
static void check_order(const VR& r, bool up)
{
	vp_reach("done");
	vp_ensures(r.size() == N, "as many elements as before");
	if (r.size() != N) return;
	for (size_t i = 0; i + 1 < N; ++i) vp_ensures(r[i].key <= r[i + 1].key, "ordered by the key");
	size_t k = vp_ghost("k");
	if (k >= N) return;
	uint32_t x = r[k].key;
	unsigned n = 0;
	for (size_t i = 0; i != N; ++i) n += r[i].key == x;
	vp_ensures(n == count(x), "each element as often as before");
}
VP_HARNESS(order_4)
{
	few();
	VR v = make();
	VR r = utki::linq(v).order_by([](const rec& x) -> const uint32_t& { return x.key; }).get();
	check_order(r, true);
	check_same(v);
}
VP_HARNESS(order_rvalue_4)
{
	few();
	VR r = utki::linq(make()).order_by([](const rec& x) -> const uint32_t& { return x.key; }).get();
	check_order(r, true);
}
static unsigned group(uint32_t x) { return vp_native() ? x >> 1 : unsigned(vp_fun("g", x)); }
template <class M>
static void check_groups(const M& m)
{
	vp_reach("done");
	size_t total = 0;
	for (auto& g : m) {
		vp_ensures(!g.second.empty(), "no empty groups");
		total += g.second.size();
		size_t n = 0;
		for (size_t i = 0; i != N; ++i) {
			if (group(key_of(i)) != g.first) continue;
			vp_ensures(n < g.second.size(), "every element is in the group of its key");
			if (n >= g.second.size()) return;
			vp_ensures(g.second[n].key == key_of(i), "the elements of a group in order");
			++n;
		}
	}
	vp_ensures(total == N, "nothing else");
}
VP_HARNESS(group_4)
{
	few();
	VR v = make();
	auto r = utki::linq(v).group_by([](const rec& x) { return group(x.key); }).get();
	check_groups(r);
	check_same(v);
}
VP_HARNESS(group_rvalue_4)
{
	few();
	auto r = utki::linq(make()).group_by([](const rec& x) { return group(x.key); }).get();
	check_groups(r);
}
