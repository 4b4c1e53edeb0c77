// enum_iterable and enum_array
#include "vp.hpp"
#include <tuple>
#include <algorithm>
#include <utki/enum_array.hpp>

namespace{
enum class e1 { a, enum_size };
enum class e5 { a, b, c, d, e, enum_size };
enum class e127 : int8_t { a, enum_size = 127 };
enum class e200 : uint8_t { a, enum_size = 200 };
enum class e255 : uint8_t { a, enum_size = 255 };
enum class e300 : uint16_t { a, enum_size = 300 };
enum class e9 : uint64_t { a, enum_size = 9 };
}
template <class E>
struct T
{
	static constexpr size_t N = size_t(E::enum_size);
	static void iterate()
	{
		const auto& it = utki::enum_iterable_v<E>;
		vp_ensures(it.size() == N, "size is the number of values");
		size_t n = 0;
		for (E e : it) {
			vp_ensures(n < N && e == E(n), "visits the values in order");
			++n;
			if (n > N) break;
		}
		vp_ensures(n == N, "visits every value");
		n = 0;
		for (auto i = it.cbegin(); i != it.cend(); ++i, ++n) {
			vp_ensures(n < N && *i == E(n), "visits the values in order");
			if (n > N) break;
		}
		vp_ensures(n == N, "visits every value");
		// one step at any value
		auto i = it.begin();
		uint64_t k = vp_any("k", 16);
		if (vp_search()) k %= N;
		vp_requires(k < N);
		E ek = E(k);
		memcpy(static_cast<void*>(&i), &ek, sizeof(E)); // iterator at an arbitrary value
		static_assert(sizeof(i) == sizeof(E));
		vp_ensures(*i == E(k), "an iterator gives its value");
		vp_ensures(i != it.end(), "a value is not the end");
		vp_ensures(&++i == &i, "stepping returns the iterator");
		vp_ensures(*i == E(k + 1), "stepping goes to the next value");
		vp_ensures((i != it.end()) == (k + 1 != N), "the end follows the last value");
		vp_reach("done");
	}
	static void array()
	{
		utki::enum_array<uint32_t, E> a{};
		vp_ensures(a.size() == N, "one element per value");
		for (size_t i = 0; i != N; ++i) a[i] = uint32_t(i);
		const auto& ca = a;
		uint64_t k = vp_any("k", 16), g = vp_ghost("g");
		if (vp_search()) k %= N;
		vp_requires(k < N && g < N);
		uint32_t* base = a.data();
		vp_ensures(&a[E(k)] == base + k, "the element of a value");
		vp_ensures(&ca[E(k)] == base + k, "the element of a value");
		vp_ensures(&a[size_t(k)] == base + k, "the element of a number");
		a[E(k)] = 12345;
		vp_ensures(ca[size_t(g)] == (g == k ? 12345 : uint32_t(g)), "assigning changes exactly the element of that value");
		vp_reach("done");
	}
	static void zip()
	{
		utki::enum_array<uint32_t, E> a{};
		size_t n = 0;
		for (auto t : a.zip_with_enum()) {
			vp_ensures(n < N && std::get<1>(t) == E(n), "visits the values in order");
			vp_ensures(&std::get<0>(t) == a.data() + n, "pairs each value with its element");
			++n;
			if (n > N) break;
		}
		vp_ensures(n == N, "visits every value");
		const auto& ca = a;
		n = 0;
		for (auto t : ca.zip_with_enum()) {
			vp_ensures(n < N && std::get<1>(t) == E(n), "visits the values in order");
			vp_ensures(&std::get<0>(t) == a.data() + n, "pairs each value with its element");
			++n;
			if (n > N) break;
		}
		vp_ensures(n == N, "visits every value");
		vp_reach("done");
	}
};
#define ALL(n, E) \
	VP_HARNESS(iterate_##n) { T<E>::iterate(); } \
	VP_HARNESS(array_##n) { T<E>::array(); } \
	VP_HARNESS(zip_##n) { T<E>::zip(); }
ALL(1, e1)
ALL(5, e5)
ALL(9, e9)
ALL(127, e127)
ALL(200, e200)
ALL(255, e255)
ALL(300, e300)
