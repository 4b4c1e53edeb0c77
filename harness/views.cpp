// collection views, next/prev
#include "vp.hpp"
#include <iterator>
#include <utki/span.hpp>
#include <utki/utility.hpp>
#include <utki/views.hpp>

template <class T>
static utki::span<T> arr(const char* name, size_t& n)
{
	n = vp_len("n");
	return utki::span<T>(static_cast<T*>(vp_buf(name, n * sizeof(T))), n);
}
VP_HARNESS(reverse)
{
	size_t n, i = 0;
	auto s = arr<uint32_t>("a", n);
	for (auto& e : utki::views::reverse(s)) {
		vp_ensures(i < n, "visits only elements of the collection");
		vp_ensures(&e == s.data() + (n - 1 - i), "visits the elements last to first");
		++i;
	}
	vp_ensures(i == n, "visits all elements");
	vp_reach("done");
}
VP_HARNESS(reverse_const)
{
	size_t n, i = 0;
	auto s = arr<uint8_t>("a", n);
	const utki::span<const uint8_t> c(s);
	for (auto& e : utki::views::reverse(c)) {
		vp_ensures(i < n, "visits only elements of the collection");
		vp_ensures(&e == s.data() + (n - 1 - i), "visits the elements last to first");
		++i;
	}
	vp_ensures(i == n, "visits all elements");
	vp_reach("done");
}
template <size_t K, class T>
static void skip()
{
	size_t n, i = 0;
	auto s = arr<T>("a", n);
	vp_requires(n >= K);
	for (auto& e : utki::skip_front<K>(s)) {
		vp_ensures(i < n - K, "visits only elements of the collection");
		vp_ensures(&e == s.data() + K + i, "visits the elements after the ones skipped in order");
		++i;
	}
	vp_ensures(i == n - K, "visits all elements after the ones skipped");
	vp_reach("done");
}
VP_HARNESS(skip0) { skip<0, uint32_t>(); }
VP_HARNESS(skip1) { skip<1, uint8_t>(); }
VP_HARNESS(skip3) { skip<3, uint32_t>(); }
VP_HARNESS(zip2)
{
	size_t n, m, i = 0;
	auto s = arr<uint32_t>("a", n);
	auto t = arr<uint8_t>("b", m);
	size_t l = n < m ? n : m;
	vp_hint_val(l);
	for (auto p : utki::views::zip(s, t)) {
		vp_ensures(i < l, "stops after the shortest collection");
		vp_ensures(&std::get<0>(p) == s.data() + i, "visits the elements of the first collection in order");
		vp_ensures(&std::get<1>(p) == t.data() + i, "visits the elements of the second collection in step");
		++i;
	}
	vp_ensures(i == l, "visits all elements of the shortest collection");
	vp_reach("done");
}
VP_HARNESS(zip_const)
{
	size_t n, m, i = 0;
	auto s0 = arr<uint32_t>("a", n);
	auto t = arr<uint16_t>("b", m);
	const utki::span<uint32_t> s(s0);
	size_t l = n < m ? n : m;
	vp_hint_val(l);
	for (auto p : utki::views::zip(t, s)) {
		vp_ensures(i < l, "stops after the shortest collection");
		vp_ensures(&std::get<0>(p) == t.data() + i, "visits the elements of the first collection in order");
		vp_ensures(&std::get<1>(p) == s.data() + i, "visits the elements of the second collection in step");
		++i;
	}
	vp_ensures(i == l, "visits all elements of the shortest collection");
	vp_reach("done");
}
VP_HARNESS(zip3)
{
	size_t n, m, o, i = 0;
	auto s = arr<uint32_t>("a", n);
	auto t = arr<uint8_t>("b", m);
	auto u = arr<uint16_t>("c", o);
	size_t l = n < m ? n : m;
	l = l < o ? l : o;
	vp_hint_val(l);
	for (auto p : utki::views::zip(s, t, u)) {
		vp_ensures(i < l, "stops after the shortest collection");
		vp_ensures(&std::get<0>(p) == s.data() + i && &std::get<1>(p) == t.data() + i && &std::get<2>(p) == u.data() + i, "visits the elements of the collections in step");
		++i;
	}
	vp_ensures(i == l, "visits all elements of the shortest collection");
	vp_reach("done");
}
VP_HARNESS(zip1)
{
	size_t n, i = 0;
	auto s = arr<uint32_t>("a", n);
	for (auto p : utki::views::zip(s)) {
		vp_ensures(i < n && &std::get<0>(p) == s.data() + i, "visits the elements in order");
		++i;
	}
	vp_ensures(i == n, "visits all elements");
	vp_reach("done");
}
VP_HARNESS(pointers)
{
	size_t n, a = vp_len("from"), k = vp_len("k");
	auto s = arr<uint32_t>("a", n);
	vp_requires(VP_AND(a <= n, k <= n - a));
	vp_ensures(utki::next(s.data() + a, k) == s.data() + (a + k), "next advances by the count");
	vp_ensures(utki::prev(s.data() + (a + k), k) == s.data() + a, "prev goes back by the count");
	vp_ensures(utki::next(s.data() + a, 0) == s.data() + a && utki::prev(s.data() + a, 0) == s.data() + a, "no step for count zero");
	vp_reach("done");
}
// random access iterator with a given difference type
template <class D>
struct iter {
	using iterator_category = std::random_access_iterator_tag;
	using value_type = uint64_t;
	using difference_type = D;
	using pointer = const uint64_t*;
	using reference = uint64_t;
	uint64_t pos;
	iter& operator+=(D d)
	{
		pos += uint64_t(int64_t(d));
		return *this;
	}
	iter& operator-=(D d)
	{
		pos -= uint64_t(int64_t(d));
		return *this;
	}
	iter& operator++()
	{
		++pos;
		return *this;
	}
	iter& operator--()
	{
		--pos;
		return *this;
	}
	uint64_t operator*() const
	{
		return pos;
	}
};
static uint64_t P, C;
template <class D>
static void count()
{
	P = vp_any("p", 64);
	C = vp_any("c", 64);
	if (vp_native()) C %= 100000;
	auto a = utki::next(iter<D>{P}, C);
	vp_ensures(a.pos == P + C, "next advances by the count");
	auto b = utki::prev(iter<D>{P}, C);
	vp_ensures(b.pos == P - C, "prev goes back by the count");
	vp_reach("done");
}
VP_HARNESS(count8) { count<int8_t>(); }
VP_HARNESS(count16) { count<int16_t>(); }
VP_HARNESS(count32) { count<int32_t>(); }
VP_HARNESS(count64) { count<int64_t>(); }
// bidirectional iterator: single steps
template <class D>
struct steps : public iter<D> {
	using iterator_category = std::bidirectional_iterator_tag;
	void operator+=(D) = delete;
	void operator-=(D) = delete;
	steps& operator++()
	{
		++this->pos;
		return *this;
	}
	steps& operator--()
	{
		--this->pos;
		return *this;
	}
};
VP_HARNESS(steps64)
{
	P = vp_any("p", 64);
	C = vp_len("n");
	if (vp_native()) C %= 10000;
	steps<int64_t> i;
	i.pos = P;
	vp_ensures(utki::next(i, C).pos == P + C, "next advances by the count");
	vp_ensures(utki::prev(i, C).pos == P - C, "prev goes back by the count");
	vp_reach("done");
}
