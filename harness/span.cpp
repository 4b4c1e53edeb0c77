// span: elements are exactly those of the source.
#include "vp.hpp"
#include <sstream>
#include <stdexcept>
#include <utki/span.hpp>

static const char ALPHA[] = "ab\xff";
// a span over a part of an array of T
template <class T>
struct src {
	size_t total, off, n;
	T* p;
	utki::span<T> s;
	src(const char* name)
	{
		total = vp_len("total");
		off = vp_len("off");
		n = vp_len("n");
		vp_requires(VP_AND(off <= total, n <= total - off));
		p = static_cast<T*>(vp_buf(name, total * sizeof(T)));
		s = utki::span<T>(p + off, n);
	}
};
template <class S, class T>
static void same(const S& s, T* p, size_t n, const char* what)
{
	vp_ensures(s.size() == n, what);
	vp_ensures(s.empty() == (n == 0), "empty exactly when there are no elements");
	vp_ensures(s.size_bytes() == n * sizeof(T), "size in bytes");
	if (n != 0) vp_ensures(s.data() == p, what);
	vp_ensures(s.end() == s.begin() + n, "end is behind the last element");
	vp_ensures(s.begin() == s.data(), "begin is the first element");
}
template <class T>
static void access()
{
	src<T> a("a");
	T* p = a.p + a.off;
	same(a.s, p, a.n, "pointer and size");
	same(utki::make_span(p, a.n), p, a.n, "make_span of pointer and size");
	utki::span<const T> c(a.s);
	same(c, p, a.n, "const span of a span");
	auto copy = a.s;
	same(copy, p, a.n, "copy");
	utki::span<T> asg;
	same(asg, p, 0, "a default span is empty");
	asg = a.s;
	same(asg, p, a.n, "assignment");
	const auto& cs = a.s;
	vp_ensures(cs.cbegin() == p && cs.cend() == p + a.n && a.s.begin() == p && a.s.end() == p + a.n, "iteration range");
	size_t k = vp_any("k", 64);
	if (vp_search() && a.n != 0) k %= a.n;
	vp_requires(k < a.n);
	vp_ensures(&a.s[k] == p + k, "operator[] gives the element at the index");
	vp_ensures(&cs[k] == p + k, "const operator[] gives the element at the index");
	vp_ensures(&c[k] == p + k, "operator[] of a const span gives the element at the index");
	vp_ensures(&a.s.front() == p && &cs.front() == p, "front is the first element");
	vp_ensures(&a.s.back() == p + (a.n - 1) && &cs.back() == p + (a.n - 1), "back is the last element");
	vp_ensures(&*(a.s.begin() + ptrdiff_t(k)) == p + k, "iteration visits the elements in order");
	vp_ensures(&*(cs.rbegin() + ptrdiff_t(k)) == p + (a.n - 1 - k), "backwards iteration visits the elements last to first");
	vp_ensures(&*(cs.crbegin() + ptrdiff_t(k)) == p + (a.n - 1 - k), "const backwards iteration visits the elements last to first");
	vp_ensures(cs.rend() - cs.rbegin() == ptrdiff_t(a.n) && cs.crend() - cs.crbegin() == ptrdiff_t(a.n), "backwards iteration has all elements");
	T v = vp_val<T>("v");
	a.s[k] = v;
	vp_ensures(p[k] == v, "elements are those of the source");
	vp_reach("done");
}
VP_HARNESS(access8) { access<uint8_t>(); }
VP_HARNESS(access32) { access<uint32_t>(); }
VP_HARNESS(access64) { access<uint64_t>(); }

template <class T>
static void at()
{
	src<T> a("a");
	T* p = a.p + a.off;
	size_t i = vp_any("i", 64);
	if (vp_search() && i > 40) i %= (a.n + 2);
	T *r = nullptr;
	const T *cr = nullptr;
	bool t = false, ct = false;
	try {
		r = &a.s.at(i);
	} catch (std::out_of_range&) {
		t = true;
	}
	const auto& cs = a.s;
	try {
		cr = &cs.at(i);
	} catch (std::out_of_range&) {
		ct = true;
	}
	vp_ensures(t == (i >= a.n), "checked access throws out_of_range exactly for indices out of range");
	vp_ensures(ct == (i >= a.n), "const checked access throws out_of_range exactly for indices out of range");
	if (i < a.n) vp_ensures(r == p + i && cr == p + i, "checked access gives the element at the index");
	vp_reach("done");
}
VP_HARNESS(at8) { at<uint8_t>(); }
VP_HARNESS(at32) { at<uint32_t>(); }

template <class T>
static void sub()
{
	src<T> a("a");
	T* p = a.p + a.off;
	size_t o = vp_len("o"), c = vp_any("c", 64);
	if (vp_search() && c > 64) c = c % 2 ? size_t(-1) : c % 8;
	vp_requires(o <= a.n);
	vp_requires(VP_OR(c == size_t(-1), c <= a.n - o));
	same(a.s.subspan(o, c), p + o, c == size_t(-1) ? a.n - o : c, "sub-span");
	same(a.s.subspan(o), p + o, a.n - o, "sub-span up to the end");
	vp_reach("done");
}
VP_HARNESS(sub8) { sub<uint8_t>(); }
VP_HARNESS(sub32) { sub<uint32_t>(); }

template <class T>
static void over()
{
	src<T> a("a");
	size_t i = vp_len("i");
	vp_requires(i <= a.total);
	const T* q = a.p + i;
	vp_ensures(utki::overlaps(a.s, q) == VP_AND(i >= a.off, i < a.off + a.n), "overlaps exactly when the position is one of the elements");
	vp_ensures(utki::overlaps(utki::span<const T>(a.s), q) == VP_AND(i >= a.off, i < a.off + a.n), "overlaps exactly when the position is one of the elements");
	vp_reach("done");
}
VP_HARNESS(overlaps8) { over<uint8_t>(); }
VP_HARNESS(overlaps32) { over<uint32_t>(); }

template <size_t N>
static void arr()
{
	std::array<uint32_t, N> a{};
	const auto& ca = a;
	same(utki::make_span(a), a.data(), N, "make_span of an array");
	same(utki::make_span(ca), ca.data(), N, "make_span of a const array");
	same(utki::span<uint32_t>(a), a.data(), N, "span of an array");
	same(utki::span<const uint32_t>(ca), ca.data(), N, "span of a const array");
}
VP_HARNESS(arrays)
{
	arr<0>();
	arr<1>();
	arr<7>();
	std::initializer_list<uint32_t> l = {5, 6, 7};
	same(utki::span<const uint32_t>(l), l.begin(), 3, "span of an initializer list");
	same(utki::make_span(l), l.begin(), 3, "make_span of an initializer list");
	vp_reach("done");
}
VP_HARNESS(containers)
{
	size_t n = vp_len("n");
	auto b = static_cast<const char*>(vp_bytes("a", n, ALPHA));
	std::string s(b, n);
	const auto& cs = s;
	same(utki::make_span(s), s.data(), n, "make_span of a string");
	same(utki::make_span(cs), cs.data(), n, "make_span of a const string");
	same(utki::span<char>(s), s.data(), n, "span of a string");
	same(utki::span<const char>(cs), cs.data(), n, "span of a const string");
	std::string_view v(b, n);
	same(utki::make_span(v), b, n, "make_span of a string view");
	same(utki::span<const char>(v), b, n, "span of a string view");
	auto ub = reinterpret_cast<const uint8_t*>(b);
	std::vector<uint8_t> w(ub, ub + n);
	const auto& cw = w;
	same(utki::make_span(w), w.data(), n, "make_span of a vector");
	same(utki::make_span(cw), cw.data(), n, "make_span of a const vector");
	same(utki::span<uint8_t>(w), w.data(), n, "span of a vector");
	same(utki::span<const uint8_t>(cw), cw.data(), n, "span of a const vector");
	same(utki::span<const uint8_t>(w), w.data(), n, "const span of a vector");
	vp_reach("done");
}
VP_HARNESS(c_string)
{
	size_t n = vp_len("n"), k = vp_ghost("k");
	auto b = static_cast<const char*>(vp_bytes("a", n + 1, ALPHA));
	if (vp_native()) const_cast<char*>(b)[n] = 0;
	vp_requires(b[n] == 0);
	auto s = utki::make_span(b);
	vp_ensures(s.size() <= n, "ends at the first terminator");
	if (s.size() > n) return;
	same(s, b, s.size(), "make_span of a C string");
	vp_ensures(b[s.size()] == 0, "ends at a terminator");
	vp_ensures(VP_IMPLIES(k < s.size(), (k <= n ? b[k] : 1) != 0), "ends at the first terminator");
	utki::span<const char> t(b);
	vp_ensures(t.size() <= n, "ends at the first terminator");
	if (t.size() > n) return;
	same(t, b, t.size(), "span of a C string");
	vp_ensures(b[t.size()] == 0, "ends at a terminator");
	vp_ensures(VP_IMPLIES(k < t.size(), (k <= n ? b[k] : 1) != 0), "ends at the first terminator");
	vp_reach("done");
}
VP_HARNESS(bytes)
{
	size_t n = vp_len("n");
	auto b = static_cast<char*>(vp_buf("a", n));
	auto u = reinterpret_cast<uint8_t*>(b);
	same(utki::to_uint8_t(utki::span<char>(b, n)), u, n, "same bytes");
	same(utki::to_uint8_t(utki::span<const char>(b, n)), u, n, "same bytes");
	same(utki::to_char(utki::span<uint8_t>(u, n)), b, n, "same bytes");
	same(utki::to_char(utki::span<const uint8_t>(u, n)), b, n, "same bytes");
	vp_reach("done");
}
template <class T>
static void vec()
{
	src<T> a("a");
	T* p = a.p + a.off;
	size_t k = vp_ghost("k");
	T h = k < a.n ? p[k] : T(0);
	vp_hint_elem(k, h, sizeof(T));
	vp_hint_val(a.n);
	auto v = utki::make_vector(a.s);
	vp_ensures(v.size() == a.n, "vector of all elements");
	if (v.size() == a.n && k < a.n) vp_ensures(v[k] == p[k], "vector of the elements in order");
	auto w = utki::make_vector(utki::span<const T>(a.s));
	vp_ensures(w.size() == a.n, "vector of all elements");
	if (w.size() == a.n && k < a.n) vp_ensures(w[k] == p[k], "vector of the elements in order");
	vp_reach("done");
}
VP_HARNESS(vector8) { vec<uint8_t>(); }
VP_HARNESS(vector32) { vec<uint32_t>(); }
VP_HARNESS(stream)
{
	size_t n = vp_len("n"), k = vp_ghost("k");
	auto b = static_cast<const char*>(vp_bytes("a", n, ALPHA));
	vp_hint_elem(k, k < n ? uint8_t(b[k]) : 0, 1);
	std::stringstream ss;
	ss << utki::span<const char>(b, n);
	std::string r = ss.str();
	vp_ensures(r.size() == n, "prints all elements");
	if (r.size() == n && k < n) vp_ensures(r[k] == b[k], "prints the elements in order");
	vp_reach("done");
}

// D: length of the longest common front of two arrays
template <class T>
struct pair_ {
	static const T *A, *B;
	static size_t n, m, d;
	static bool ax(uint64_t i)
	{
		return i < d && i < n && i < m ? A[i] == B[i] : true;
	}
	static void make()
	{
		n = vp_len("n");
		m = vp_len("m");
		A = static_cast<const T*>(vp_bytes("a", n * sizeof(T), "aab"));
		B = static_cast<const T*>(vp_bytes("b", m * sizeof(T), "aab"));
		d = vp_ghost("d");
		if (vp_native())
			for (d = 0; d < n && d < m && A[d] == B[d]; ++d) {}
		vp_requires(VP_AND(d <= n, d <= m));
		if (d < n && d < m) vp_requires(A[d] != B[d]);
		vp_axiom(&ax);
		vp_use(d);
		vp_hint_val(d);
	}
	static void eq()
	{
		make();
		utki::span<const T> a(A, n), b(B, m);
		bool e = VP_AND(n == m, d == n);
		vp_ensures(utki::deep_equals(a, b) == e, "equal exactly when the elements are the same");
		vp_ensures(utki::deep_not_equals(a, b) == !e, "different exactly when the elements are not the same");
		vp_reach("done");
	}
	static void less()
	{
		make();
		utki::span<const T> a(A, n), b(B, m);
		bool l = d < n && d < m ? A[d] < B[d] : n < m;
		vp_ensures(utki::deep_less_than(a, b) == l, "lexicographical order");
		vp_ensures(utki::deep_greater_or_equals(a, b) == !l, "opposite of less");
		vp_reach("done");
	}
	static void greater()
	{
		make();
		utki::span<const T> a(A, n), b(B, m);
		bool g = d < n && d < m ? B[d] < A[d] : m < n;
		vp_ensures(utki::deep_greater_than(a, b) == g, "lexicographical order");
		vp_ensures(utki::deep_less_or_equals(a, b) == !g, "opposite of greater");
		vp_reach("done");
	}
};
template <class T> const T* pair_<T>::A;
template <class T> const T* pair_<T>::B;
template <class T> size_t pair_<T>::n;
template <class T> size_t pair_<T>::m;
template <class T> size_t pair_<T>::d;
VP_HARNESS(equal8) { pair_<uint8_t>::eq(); }
VP_HARNESS(equal32) { pair_<uint32_t>::eq(); }
VP_HARNESS(less8) { pair_<uint8_t>::less(); }
VP_HARNESS(less32) { pair_<uint32_t>::less(); }
VP_HARNESS(greater8) { pair_<uint8_t>::greater(); }
VP_HARNESS(greater32) { pair_<uint32_t>::greater(); }
