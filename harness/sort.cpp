// sorting: ordered permutation
#include "vp.hpp"
#include <utki/sort.hpp>
// any strict weak ordering: order of ranks
static uint64_t rank(uint32_t x) { return vp_native() ? x >> 1 & 0x7f : vp_fun("rank", x); }
struct before {
	bool operator()(uint32_t a, uint32_t b) const { return rank(a) < rank(b); }
};
static size_t N;
static size_t pin_(size_t x, size_t n)
{
	for (size_t i = 0; i != n; ++i)
		if (x == i) return i;
	return n;
}
template <class Less, class Run>
static void check(unsigned most, Less less, Run run)
{
	// elements [lo, hi) of a larger array are sorted
	N = vp_native() ? vp_len("n") : vp_any("n", 3);
	if (!vp_native()) {
		vp_requires(N <= most);
		unsigned n = 0;
		while (n != N) ++n; // one path for each size
		N = n;
	}
	const uint32_t guard = 0x5a5a5a5a;
	std::vector<uint32_t> orig;
	uint32_t mem[4 + 2] = {};
	uint32_t* a = mem;
	std::vector<uint32_t> big;
	if (vp_native()) {
		auto p = static_cast<const uint8_t*>(vp_bytes("a", N, "abcdabcd"));
		big.assign(N + 2, guard);
		for (size_t i = 0; i != N; ++i) big[i + 1] = p[i];
		a = big.data();
	} else {
		for (size_t i = 0; i != N; ++i) mem[i + 1] = unsigned(vp_any("x", 32));
		mem[0] = mem[N + 1] = guard;
	}
	for (size_t i = 0; i != N; ++i) orig.push_back(a[i + 1]);
	run(a + 1, a + 1 + N);
	vp_reach("done");
	vp_ensures(a[0] == guard && a[N + 1] == guard, "nothing outside of the range is touched");
	for (size_t i = 0; i + 1 < N; ++i) vp_ensures(!less(a[i + 2], a[i + 1]), "ordered");
	size_t k = vp_native() ? vp_ghost("k") : pin_(vp_ghost("k"), N);
	if (k >= N) return;
	unsigned n = 0, m = 0;
	for (size_t i = 0; i != N; ++i) {
		m += orig[i] == orig[k];
		n += a[i + 1] == orig[k];
	}
	vp_ensures(n == m, "each element is there as often as before");
}
VP_HARNESS(sort_4)
{
	check(4, before(), [](uint32_t* f, uint32_t* l) { utki::sort(f, l, before()); });
}
VP_HARNESS(sort_default_4)
{
	check(4, std::less<>(), [](uint32_t* f, uint32_t* l) { utki::sort(f, l); });
}
VP_HARNESS(sort_greater_4)
{
	check(4, std::greater<>(), [](uint32_t* f, uint32_t* l) { utki::sort(f, l, std::greater<>()); });
}
