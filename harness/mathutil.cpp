// sign, powers, contains, flip_map
#include "vp.hpp"
#include "rbtree.hpp"
#include <utki/math.hpp>
#include <utki/span.hpp>
#include <utki/utility.hpp>

template <class T>
static void sgn()
{
	T n = vp_val<T>("n");
	vp_ensures(utki::sign(n) == (n < T(0) ? T(-1) : T(1)), "sign is -1 exactly for negative numbers");
	vp_reach("done");
}
VP_HARNESS(sign8) { sgn<int8_t>(); }
VP_HARNESS(sign32) { sgn<int32_t>(); }
VP_HARNESS(sign64) { sgn<int64_t>(); }
VP_HARNESS(sign_unsigned) { sgn<uint64_t>(); }
template <class T>
static void pows()
{
	T x = vp_val<T>("x");
	vp_ensures(utki::pow2(x) == T(x * x), "second power");
	vp_ensures(utki::pow3(x) == T(x * x * x), "third power");
	vp_ensures(utki::pow4(x) == T(x * x * x * x), "fourth power");
	vp_ensures(utki::pow5(x) == T(x * x * x * x * x), "fifth power");
	vp_ensures(utki::pow6(x) == T(x * x * x * x * x * x), "sixth power");
	vp_reach("done");
}
VP_HARNESS(pow_u32) { pows<uint32_t>(); }
VP_HARNESS(pow_u64) { pows<uint64_t>(); }
// signed: as long as the power is representable
VP_HARNESS(pow_i64)
{
	int64_t x = int8_t(vp_any("x", 8));
	vp_ensures(utki::pow2(x) == x * x, "second power");
	vp_ensures(utki::pow3(x) == x * x * x, "third power");
	vp_ensures(utki::pow4(x) == x * x * x * x, "fourth power");
	vp_ensures(utki::pow5(x) == x * x * x * x * x, "fifth power");
	vp_ensures(utki::pow6(x) == x * x * x * x * x * x, "sixth power");
	vp_reach("done");
}

template <class T>
struct C {
	static const T* A;
	static size_t N;
	static T V;
	static bool none; // no element is V
	static bool ax(uint64_t i)
	{
		return VP_AND(VP_AND(at(i), at(4 * i)), VP_AND(VP_AND(at(4 * i + 1), at(4 * i + 2)), at(4 * i + 3)));
	}
	static bool at(uint64_t i)
	{
		return none && i < N ? A[i] != V : true;
	}
	static void run()
	{
		N = vp_len("n");
		V = vp_val<T>("v");
		A = static_cast<const T*>(vp_bytes("a", N * sizeof(T), "ab"));
		size_t k = vp_ghost("k");
		none = vp_any("none", 1);
		if (vp_native()) {
			if (vp_search() && V > 4) V = 'a';
			none = true;
			for (size_t i = 0; i < N; ++i) none = none && A[i] != V;
		}
		vp_axiom(&ax);
		vp_use(N >> 2);
		T h = k < N ? A[k] : T(0);
		vp_hint_elem(k, h, sizeof(T));
		vp_hint_pred(k, k < N ? A[k] != V : true);
		utki::span<const T> s(A, N);
		bool r = utki::contains(s, V);
		vp_reach("done");
		if (r) vp_ensures(!none, "what is not in the container is not found");
		if (k < N && A[k] == V) vp_ensures(r, "an element of the container is found");
	}
};
template <class T> const T* C<T>::A;
template <class T> size_t C<T>::N;
template <class T> T C<T>::V;
template <class T> bool C<T>::none;
VP_HARNESS(contains8) { C<uint8_t>::run(); }
VP_HARNESS(contains32) { C<uint32_t>::run(); }
VP_HARNESS(contains_vector)
{
	size_t n = vp_len("n"), k = vp_ghost("k");
	auto p = static_cast<const uint8_t*>(vp_bytes("a", n, "ab"));
	uint8_t v = vp_val<uint8_t>("v");
	std::vector<uint8_t> c(p, p + n);
	vp_hint_pred(k, k < n ? p[k] != v : true);
	bool r = utki::contains(c, v);
	vp_reach("done");
	if (k < n && p[k] == v) vp_ensures(r, "an element of the container is found");
}
// maps of up to 3 entries
struct entries {
	unsigned n;
	uint32_t k[3], v[3];
	bool dist; // different keys
	entries()
	{
		n = unsigned(vp_any("n", 2));
		for (auto& x : k) x = unsigned(vp_any("k", vp_native() ? 2 : 32));
		for (auto& x : v) x = unsigned(vp_any("v", vp_native() ? 2 : 32));
		dist = VP_AND(VP_AND(VP_OR(n < 2, k[0] != k[1]), VP_OR(n < 3, k[0] != k[2])), VP_OR(n < 3, k[1] != k[2]));
		vp_requires(VP_AND(n <= 3, dist));
	}
	bool has_key(uint32_t x) const
	{
		return VP_OR(VP_OR(VP_AND(n > 0, k[0] == x), VP_AND(n > 1, k[1] == x)), VP_AND(n > 2, k[2] == x));
	}
	bool has_value(uint32_t x) const
	{
		return VP_OR(VP_OR(VP_AND(n > 0, v[0] == x), VP_AND(n > 1, v[1] == x)), VP_AND(n > 2, v[2] == x));
	}
	bool has(uint32_t a, uint32_t b) const
	{
		return VP_OR(VP_OR(VP_AND(VP_AND(n > 0, k[0] == a), v[0] == b), VP_AND(VP_AND(n > 1, k[1] == a), v[1] == b)), VP_AND(VP_AND(n > 2, k[2] == a), v[2] == b));
	}
};
VP_HARNESS(contains_map_3)
{
	entries e;
	std::map<uint32_t, uint32_t> m;
	for (unsigned i = 0; i != e.n; ++i) m[e.k[i]] = e.v[i];
	uint32_t x = unsigned(vp_any("x", vp_native() ? 2 : 32));
	vp_ensures(utki::contains(m, x) == e.has_key(x), "a key is found exactly when it is in the map");
	vp_reach("done");
}
template <class M, class R>
static void check_flip(const entries& e, const R& r)
{
	size_t n = 0;
	for (auto& p : r) {
		++n;
		vp_ensures(e.has(p.second, p.first), "every pair is a flipped pair of the map");
	}
	for (unsigned i = 0; i != e.n; ++i) vp_ensures(r.find(e.v[i]) != r.end(), "every value is a key");
	vp_ensures(n <= e.n && n == r.size(), "no more pairs than in the map");
	vp_reach("done");
}
VP_HARNESS(flip_map_3)
{
	entries e;
	std::map<uint32_t, uint32_t> m;
	for (unsigned i = 0; i != e.n; ++i) m[e.k[i]] = e.v[i];
	check_flip<decltype(m)>(e, utki::flip_map(m));
}
VP_HARNESS(flip_map_order_3)
{
	entries e;
	std::map<uint32_t, uint32_t> m;
	for (unsigned i = 0; i != e.n; ++i) m[e.k[i]] = e.v[i];
	check_flip<decltype(m)>(e, utki::flip_map<std::greater<uint32_t>>(m));
}
