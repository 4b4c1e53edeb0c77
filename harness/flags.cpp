// flags: sets of enumeration values.  Ghost flag g stands for every flag.
#include "vp.hpp"
#include <utki/flags.hpp>

namespace{
enum class e1 { a, enum_size };
enum class e7 { a, b, c, d, e, f, g, enum_size };
enum class e64 { a, b, enum_size = 64 };
enum class e70 { a, b, enum_size = 70 };
}
template <class E>
struct T
{
	using F = utki::flags<E>;
	static constexpr size_t N = size_t(E::enum_size);
	static constexpr size_t W = (N + 63) / 64;
	static_assert(sizeof(F) == 8 * W && W <= 2);
	// content of the set: one bit per flag
	struct bits {
		uint64_t w[2];
	};
	static constexpr uint64_t top = N % 64 == 0 ? ~uint64_t(0) : (uint64_t(1) << (N % 64)) - 1;
	static bool bit(uint64_t w0, uint64_t w1, uint64_t i)
	{
		return i < 64 ? (w0 >> i) & 1 : (w1 >> (i - 64)) & 1;
	}
	static bool bit(const bits& b, uint64_t i) { return bit(b.w[0], b.w[1], i); }
	static bits any(const char* n0, const char* n1)
	{
		bits b{{vp_any(n0, 64), 0}};
		if (W == 2) b.w[1] = vp_any(n1, 64);
		b.w[W - 1] &= top;
		return b;
	}
	// a set of arbitrary content
	static F make(const bits& b)
	{
		F f;
		memcpy(static_cast<void*>(&f), b.w, 8 * W);
		return f;
	}
	static bits content(const F& f)
	{
		bits b{{0, 0}};
		memcpy(b.w, &f, 8 * W);
		return b;
	}
	static uint64_t flag(const char* n)
	{
		uint64_t g = vp_any(n, 32);
		if (vp_search()) g %= N;
		vp_requires(g < N);
		return g;
	}
	static uint64_t ghost()
	{
		uint64_t g = vp_ghost("g");
		vp_requires(g < N);
		return g;
	}
	// content is well formed (bits outside of the enumeration do not take part)
	static void inv(const F& f)
	{
		vp_ensures((content(f).w[W - 1] & ~top) == 0, "bits outside of the enumeration stay clear");
	}
	static void element()
	{
		bits a = any("a0", "a1");
		F f = make(a);
		uint64_t g = ghost(), i = flag("i");
		bool v = vp_any("v", 1);
		const F& cf = f;
		E e = E(i), eg = E(g);
		vp_ensures(f.get(e) == bit(a, i), "get() tells the flag");
		vp_ensures(cf[e] == bit(a, i), "operator[] tells the flag");
		vp_ensures(bool(f[e]) == bit(a, i), "operator[] tells the flag");
		vp_ensures(f.size() == N, "size is the number of values");
		F s = f;
		vp_ensures(&s.set(e, v) == &s, "set() returns the set");
		vp_ensures(s.get(eg) == (g == i ? v : bit(a, g)), "set(flag, value) changes exactly that flag");
		inv(s);
		F s1 = f;
		s1.set(e);
		vp_ensures(s1.get(eg) == (g == i ? true : bit(a, g)), "set(flag) sets exactly that flag");
		inv(s1);
		F c = f;
		vp_ensures(&c.clear(e) == &c, "clear() returns the set");
		vp_ensures(c.get(eg) == (g == i ? false : bit(a, g)), "clear(flag) clears exactly that flag");
		inv(c);
		F r = f;
		r[e] = v;
		vp_ensures(r.get(eg) == (g == i ? v : bit(a, g)), "assigning to a flag changes exactly that flag");
		inv(r);
		F o = f | e;
		vp_ensures(o.get(eg) == (g == i ? true : bit(a, g)), "set | flag adds exactly that flag");
		inv(o);
		vp_ensures(content(f).w[0] == a.w[0] && content(f).w[1] == a.w[1], "the operand stays as it is");
		vp_reach("done");
	}
	static void whole()
	{
		bits a = any("a0", "a1"), b = any("b0", "b1");
		uint64_t g = ghost();
		E eg = E(g);
		const F f = make(a), h = make(b);
		bool ga = bit(a, g), gb = bit(b, g);
		auto both = [&](F x, bool v, const char* what) {
			vp_ensures(x.get(eg) == v, what);
			inv(x);
		};
		both(f & h, ga && gb, "and");
		both(f | h, ga || gb, "or");
		both(f ^ h, ga != gb, "exclusive or");
		both(~f, !ga, "complement");
		F x = f;
		vp_ensures(&(x &= h) == &x, "operator&= returns the set");
		both(x, ga && gb, "and");
		x = f;
		vp_ensures(&(x |= h) == &x, "operator|= returns the set");
		both(x, ga || gb, "or");
		x = f;
		vp_ensures(&(x ^= h) == &x, "operator^= returns the set");
		both(x, ga != gb, "exclusive or");
		x = f;
		vp_ensures(&x.invert() == &x, "invert() returns the set");
		both(x, !ga, "inversion");
		x = f;
		bool v = vp_any("v", 1);
		vp_ensures(&x.set(v) == &x, "set() returns the set");
		both(x, v, "setting all flags to a value");
		x = f;
		vp_ensures(&x.set() == &x, "set() returns the set");
		both(x, true, "setting all flags");
		x = f;
		vp_ensures(&x.clear() == &x, "clear() returns the set");
		both(x, false, "clearing all flags");
		// tests
		bool eq = a.w[0] == b.w[0] && a.w[1] == b.w[1];
		vp_ensures((f == h) == eq, "equal exactly when all flags are equal");
		vp_ensures((f != h) == !eq, "unequal exactly when not equal");
		vp_ensures(f.is_clear() == ((a.w[0] | a.w[1]) == 0), "none exactly when no flag is set");
		if (W == 1) vp_ensures(f.is_set() == (a.w[0] == top), "all exactly when every flag is set");
		else vp_ensures(f.is_set() == VP_AND(a.w[0] == ~uint64_t(0), a.w[1] == top), "all exactly when every flag is set");
		vp_reach("done");
	}
	static void construct()
	{
		uint64_t g = ghost(), i = flag("i"), j = flag("j"), k = flag("k");
		E eg = E(g);
		bool v = vp_any("v", 1);
		F f(v);
		vp_ensures(f.get(eg) == v, "initial value of all flags");
		inv(f);
		F d;
		vp_ensures(!d.get(eg), "empty by default");
		F one{E(i)};
		vp_ensures(one.get(eg) == (g == i), "made from a flag");
		inv(one);
		F l{E(i), E(j), E(k)};
		bool three = VP_OR(g == i, VP_OR(g == j, g == k));
		vp_ensures(l.get(eg) == three, "made from a list of flags");
		inv(l);
		auto m = utki::make_flags({E(i), E(j), E(k)});
		vp_ensures(m.get(eg) == three, "made from a list of flags");
		inv(m);
		auto two = E(i) | E(j);
		vp_ensures(two.get(eg) == VP_OR(g == i, g == j), "flag | flag");
		inv(two);
		vp_reach("done");
	}
};
VP_HARNESS(element_1) { T<e1>::element(); }
VP_HARNESS(element_7) { T<e7>::element(); }
VP_HARNESS(element_64) { T<e64>::element(); }
VP_HARNESS(element_70) { T<e70>::element(); }
VP_HARNESS(whole_1) { T<e1>::whole(); }
VP_HARNESS(whole_7) { T<e7>::whole(); }
VP_HARNESS(whole_64) { T<e64>::whole(); }
VP_HARNESS(whole_70) { T<e70>::whole(); }
VP_HARNESS(construct_1) { T<e1>::construct(); }
VP_HARNESS(construct_7) { T<e7>::construct(); }
VP_HARNESS(construct_64) { T<e64>::construct(); }
VP_HARNESS(construct_70) { T<e70>::construct(); }
