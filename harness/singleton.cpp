// singleton: the state of a singleton type is "none" or "one instance X"; every operation is
// checked in both states, leaving exactly the state specified (so every history is covered by induction).
#include "vp.hpp"
#include <new>
#include <stdexcept>
#include <utki/singleton.hpp>

static int alive; // objects constructed and not destroyed
struct plain : public utki::singleton<plain> {
	uint32_t v;
	explicit plain(uint32_t v, bool fail = false) :
		v(v)
	{
		if (fail) throw 5;
		++alive;
	}
	~plain() override
	{
		--alive;
	}
};
struct other : public utki::singleton<other> {
};
struct intr : public utki::intrusive_singleton<intr> {
	uint32_t v;
	explicit intr(uint32_t v, bool fail = false) :
		v(v)
	{
		if (fail) throw 5;
		++alive;
	}
	~intr() override
	{
		--alive;
	}
	static instance_type instance;
};
intr::instance_type intr::instance;

template <class T>
static void none()
{
	vp_ensures(!T::is_created(), "not created");
}
template <class T>
static void one(T* p, uint32_t v)
{
	vp_ensures(T::is_created(), "created");
	if (!T::is_created()) return;
	vp_ensures(&T::inst() == p, "the access function returns the instance");
	vp_ensures(T::inst().v == v, "the instance is untouched");
}
// an attempt to create a second one
template <class T>
static void second(T* p, uint32_t v)
{
	bool logic = false, foreign = false;
	int a = alive;
	alignas(T) unsigned char mem[sizeof(T)];
	T* q = nullptr;
	try {
		q = new (mem) T(v + 1, vp_any("fail2", 1));
	} catch (std::logic_error&) {
		logic = true;
	} catch (...) {
		foreign = true;
	}
	vp_ensures(logic && !foreign && !q, "creating a second one throws logic_error");
	vp_ensures(alive == a, "the second one is not created, the first one is not destroyed");
	one(p, v);
}
template <class T>
static void life()
{
	uint32_t v = vp_val<uint32_t>("v");
	bool fail = vp_any("fail", 1), heap = vp_any("heap", 1);
	alive = 0;
	// none
	none<T>();
	alignas(T) unsigned char mem[sizeof(T)];
	T* p = nullptr;
	bool threw = false;
	try {
		p = heap ? new T(v, fail) : new (mem) T(v, fail);
	} catch (int) {
		threw = true;
	}
	vp_ensures(threw == fail, "creation succeeds");
	if (fail) {
		none<T>(); // a failed creation leaves none
		vp_ensures(alive == 0, "nothing is created");
		vp_reach("failed");
		return;
	}
	if (!p) return;
	// one
	vp_ensures(alive == 1, "one instance");
	one(p, v);
	second(p, v);
	second(p, v);
	vp_ensures(!other::is_created(), "other singletons are independent");
	if (heap)
		delete p;
	else
		p->~T();
	// none again
	none<T>();
	vp_ensures(alive == 0, "destroyed once");
	{
		T t(v + 2, false);
		one(&t, v + 2);
	}
	none<T>();
	vp_ensures(alive == 0, "destroyed once");
	vp_reach("done");
}
VP_HARNESS(singleton) { life<plain>(); }
VP_HARNESS(intrusive) { life<intr>(); }
VP_HARNESS(independent)
{
	plain a(1);
	{
		other b;
		vp_ensures(other::is_created() && &other::inst() == &b && &plain::inst() == &a, "different types have different instances");
		intr c(2);
		vp_ensures(intr::is_created() && &intr::inst() == &c && &plain::inst() == &a, "different types have different instances");
	}
	vp_ensures(!other::is_created() && !intr::is_created(), "destroyed");
	one(&a, 1);
	vp_reach("done");
}
