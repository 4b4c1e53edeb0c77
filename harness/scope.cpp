// scope_exit
#include "vp.hpp"
#include <stdexcept>
#include <utki/utility.hpp>

static unsigned count, order; // number of times the action was run
static unsigned how; // 0: returns 1: throws int 2: throws std::exception
static void act()
{
	++count;
	if (how == 1) throw 7;
	if (how == 2) throw std::runtime_error("x");
}
static unsigned pick(const char* name, unsigned n)
{
	unsigned v = unsigned(vp_any(name, 3));
	if (vp_search()) v %= n;
	vp_requires(v < n);
	return v;
}
struct big {
	uint64_t a[5];
	void operator()() const { a[4] == 5 ? act() : (void)(count = 77); }
};
struct member {
	unsigned n = 0;
	void f() { act(); }
};
static member m;
// actions of any kind: a small object, a function, a large object, one which holds references
static std::function<void()> action()
{
	unsigned kind = pick("kind", 4);
	if (kind == 0) return [] { act(); };
	if (kind == 1) return &act;
	if (kind == 2) return big{{0, 0, 0, 0, 5}};
	auto& r = m;
	auto f = &member::f;
	return [&r, f] { (r.*f)(); };
}
// the scope is left normally or by an exception
VP_HARNESS(runs_once)
{
	count = 0;
	how = pick("how", 3);
	unsigned leave = pick("leave", 2);
	unsigned before = 99;
	bool caught = false;
	try {
		utki::scope_exit guard(action());
		before = count;
		if (leave) throw std::logic_error("leave");
	} catch (std::logic_error&) {
		caught = true;
	} // an exception of the action ends the program: escapes
	vp_ensures(before == 0, "the action is not run before the end of the scope");
	vp_ensures(count == 1, "the action is run exactly once");
	vp_ensures(caught == bool(leave), "an exception which leaves the scope is kept");
	vp_reach("done");
}
VP_HARNESS(by_function)
{
	count = 0;
	how = pick("how", 3);
	{
		utki::scope_exit guard(&act);
		vp_ensures(count == 0, "the action is not run before the end of the scope");
	}
	vp_ensures(count == 1, "the action is run exactly once");
	vp_reach("done");
}
VP_HARNESS(captures)
{
	how = 0;
	count = 0;
	struct {
		uint64_t a[5];
	} b{};
	uint64_t v = vp_any("v", 64), got = 0;
	b.a[4] = v;
	{
		utki::scope_exit guard([b, &got]() {
			++count;
			got = b.a[4];
		});
	}
	vp_ensures(count == 1 && got == v, "the action given is the one run");
	vp_reach("done");
}
VP_HARNESS(released)
{
	count = 0;
	how = 0;
	unsigned leave = pick("leave", 2), call = pick("call", 2);
	std::function<void()> f;
	try {
		utki::scope_exit guard(action());
		f = guard.release();
		vp_ensures(count == 0, "release does not run the action");
		if (leave) throw std::logic_error("leave");
	} catch (std::logic_error&) {}
	vp_ensures(count == 0, "a released action is not run");
	vp_ensures(bool(f), "a released action is given to the caller");
	if (call && f) {
		f();
		vp_ensures(count == 1, "the action released is the action of the guard");
	}
	vp_reach("done");
}
VP_HARNESS(released_twice)
{
	count = 0;
	how = 0;
	{
		utki::scope_exit guard(action());
		auto f = guard.release();
		auto g = guard.release();
		vp_ensures(bool(f) && !g, "the second release gives nothing");
	}
	vp_ensures(count == 0, "a released action is not run");
	{
		utki::scope_exit guard(action());
		auto f = guard.reset();
		vp_ensures(bool(f), "reset releases");
	}
	vp_ensures(count == 0, "a released action is not run");
	vp_reach("done");
}
VP_HARNESS(released_unused)
{
	count = 0;
	how = 0;
	{
		utki::scope_exit guard(action());
		guard.release();
	}
	vp_ensures(count == 0, "a released action is not run");
	{
		utki::scope_exit none(nullptr);
		vp_ensures(!none.release(), "no action");
		utki::scope_exit none2{std::function<void()>()};
	}
	vp_reach("done");
}
// guards of a scope run in reverse order
VP_HARNESS(nested)
{
	order = 0;
	how = 0;
	count = 0;
	{
		utki::scope_exit a([]() {
			order = order * 10 + 1;
			throw 1;
		});
		utki::scope_exit b([]() { order = order * 10 + 2; });
	}
	vp_ensures(order == 21, "each guard runs its own action, last guard first");
	vp_reach("done");
}
