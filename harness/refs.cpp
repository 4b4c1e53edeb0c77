// shared_ref, unique_ref
#include "vp.hpp"
#include <typeinfo>
#include <utki/shared_ref.hpp>
#include <utki/unique_ref.hpp>

static int alive; // objects constructed and not destroyed
static int destroyed; // destructor calls
struct base {
	uint32_t b;
	explicit base(uint32_t b) :
		b(b)
	{
		++alive;
	}
	base(const base&) = delete;
	virtual ~base()
	{
		--alive;
		++destroyed;
	}
	bool operator<(const base& o) const
	{
		return b < o.b;
	}
	bool operator==(const base& o) const
	{
		return b == o.b;
	}
};
struct side {
	uint32_t s = 7;
	virtual ~side() = default;
};
struct derived : public side, public base { // base is not at offset 0
	uint32_t d;
	explicit derived(uint32_t v, uint32_t d) :
		base(v),
		d(d)
	{}
};
struct unrelated : public base {
	using base::base;
};
static void start()
{
	alive = 0;
	destroyed = 0;
}
VP_HARNESS(make)
{
	start();
	uint32_t v = vp_val<uint32_t>("v"), d = vp_val<uint32_t>("d");
	{
		auto r = utki::make_shared<derived>(v, d);
		vp_ensures(alive == 1, "one object is made");
		vp_ensures(r.get().b == v && r.get().d == d && r.get().s == 7, "made with the arguments given");
		derived& c = r;
		vp_ensures(&c == &r.get() && r.to_shared_ptr().get() == &c, "access gives the object");
		vp_ensures(r.to_shared_ptr().use_count() == 1, "one reference");
	}
	vp_ensures(alive == 0 && destroyed == 1, "destroyed once with the last reference");
	vp_reach("done");
}
VP_HARNESS(from_pointer)
{
	start();
	uint32_t v = vp_val<uint32_t>("v");
	{
		auto p = std::make_shared<unrelated>(v);
		auto q = p.get();
		utki::shared_ref<unrelated> r(p);
		vp_ensures(&r.get() == q && p.use_count() == 2, "refers to the object given");
		p.reset();
		vp_ensures(alive == 1 && r.get().b == v, "the reference keeps the object alive");
	}
	vp_ensures(alive == 0 && destroyed == 1, "destroyed once with the last reference");
	vp_reach("done");
}
VP_HARNESS(copies)
{
	start();
	uint32_t v = vp_val<uint32_t>("v"), w = vp_val<uint32_t>("w");
	{
		auto a = utki::make_shared<unrelated>(v);
		auto pa = &a.get();
		auto b = utki::make_shared<unrelated>(w);
		auto pb = &b.get();
		vp_ensures(pa != pb && alive == 2, "different objects");
		{
			utki::shared_ref<unrelated> c = a;
			vp_ensures(&c.get() == pa && &a.get() == pa, "a copy refers to the same object");
			vp_ensures(a.to_shared_ptr().use_count() == 2, "the copy is counted");
			c = b;
			vp_ensures(&c.get() == pb && &b.get() == pb && &a.get() == pa, "assignment refers to the object assigned");
			vp_ensures(a.to_shared_ptr().use_count() == 1 && b.to_shared_ptr().use_count() == 2, "references are counted");
			auto e = std::move(c);
			vp_ensures(&e.get() == pb, "a moved reference refers to the same object");
			vp_ensures(b.to_shared_ptr().use_count() == 2, "moving does not change the count");
			auto& ee = e;
			e = ee;
			vp_ensures(&e.get() == pb && b.to_shared_ptr().use_count() == 2, "self assignment");
		}
		vp_ensures(alive == 2 && destroyed == 0, "not destroyed while referenced");
		vp_ensures(a.to_shared_ptr().use_count() == 1 && b.to_shared_ptr().use_count() == 1, "references are counted");
		a = b;
		vp_ensures(alive == 1 && destroyed == 1, "destroyed with the last reference");
		vp_ensures(&a.get() == pb && &b.get() == pb, "assignment refers to the object assigned");
		vp_ensures(a.get().b == w, "the object is untouched");
	}
	vp_ensures(alive == 0 && destroyed == 2, "every object is destroyed once");
	vp_reach("done");
}
VP_HARNESS(conversions)
{
	start();
	uint32_t v = vp_val<uint32_t>("v"), d = vp_val<uint32_t>("d");
	{
		auto r = utki::make_shared<derived>(v, d);
		auto p = &r.get();
		{
			utki::shared_ref<base> b = r;
			vp_ensures(&b.get() == static_cast<base*>(p) && b.get().b == v, "conversion to a base refers to the base of the object");
			vp_ensures(r.to_shared_ptr().use_count() == 2, "the conversion is counted");
			utki::shared_ref<const derived> c = r;
			vp_ensures(&c.get() == p, "conversion to const");
			base& br = b;
			vp_ensures(&br == static_cast<base*>(p), "conversion to the object");
			std::shared_ptr<const derived> sp = r;
			std::weak_ptr<derived> wp = r;
			std::weak_ptr<const derived> cwp = r;
			const std::shared_ptr<derived>& same = r;
			vp_ensures(sp.get() == p && wp.lock().get() == p && cwp.lock().get() == p && same.get() == p, "conversion to a pointer");
			vp_ensures(r.to_shared_ptr().use_count() == 4, "pointers are counted");
		}
		vp_ensures(r.to_shared_ptr().use_count() == 1 && alive == 1, "references are counted");
		utki::shared_ref<base> b = std::move(r);
		vp_ensures(&b.get() == static_cast<base*>(p), "conversion to a base refers to the base of the object");
	}
	vp_ensures(alive == 0 && destroyed == 1, "destroyed once with the last reference");
	vp_reach("done");
}
VP_HARNESS(weak)
{
	start();
	std::weak_ptr<derived> wp;
	{
		auto r = utki::make_shared<derived>(1, 2);
		wp = r;
		vp_ensures(!wp.expired() && wp.lock().get() == &r.get(), "the weak pointer refers to the object");
	}
	vp_ensures(wp.expired() && !wp.lock() && destroyed == 1, "a weak pointer does not keep the object");
	vp_reach("done");
}
VP_HARNESS(dynamic_cast_)
{
	start();
	uint32_t v = vp_val<uint32_t>("v"), d = vp_val<uint32_t>("d");
	{
		auto r = utki::make_shared<derived>(v, d);
		auto p = &r.get();
		utki::shared_ref<base> b = r;
		auto back = utki::dynamic_reference_cast<derived>(b);
		vp_ensures(&back.get() == p && back.get().d == d, "cast to the type of the object gives the object");
		auto cross = utki::dynamic_reference_cast<side>(b);
		vp_ensures(&cross.get() == static_cast<side*>(p) && cross.get().s == 7, "cast to another base gives the object");
		auto up = utki::dynamic_reference_cast<base>(r);
		vp_ensures(&up.get() == static_cast<base*>(p), "cast to a base gives the object");
		vp_ensures(r.to_shared_ptr().use_count() == 5, "casts are counted");
		bool bad = false, made = false;
		try {
			auto x = utki::dynamic_reference_cast<unrelated>(b);
			made = true;
		} catch (std::bad_cast&) {
			bad = true;
		}
		vp_ensures(bad && !made, "cast to another type throws bad_cast");
		vp_ensures(r.to_shared_ptr().use_count() == 5 && alive == 1, "a failed cast changes nothing");
	}
	vp_ensures(alive == 0 && destroyed == 1, "destroyed once with the last reference");
	vp_reach("done");
}
VP_HARNESS(compare)
{
	start();
	uint32_t v = vp_val<uint32_t>("v"), w = vp_val<uint32_t>("w");
	auto a = utki::make_shared<base>(v), b = utki::make_shared<base>(w);
	vp_ensures((a == b) == (v == w), "references compare as their objects");
	vp_ensures((a == b.get()) == (v == w), "references compare as their objects");
	vp_ensures((a < b.get()) == (v < w), "references compare as their objects");
	auto c = utki::make_unique<base>(v), d = utki::make_unique<base>(w);
	vp_ensures((c == d) == (v == w), "references compare as their objects");
	vp_ensures((c == d.get()) == (v == w), "references compare as their objects");
	vp_ensures((c < d.get()) == (v < w), "references compare as their objects");
	vp_reach("done");
}
VP_HARNESS(unique)
{
	start();
	uint32_t v = vp_val<uint32_t>("v"), d = vp_val<uint32_t>("d");
	{
		auto r = utki::make_unique<derived>(v, d);
		auto p = &r.get();
		derived& c = r;
		vp_ensures(alive == 1 && &c == p && p->b == v && p->d == d, "made with the arguments given");
		auto m = std::move(r);
		vp_ensures(&m.get() == p && alive == 1, "moving keeps the object");
		utki::unique_ref<base> b = std::move(m);
		vp_ensures(&b.get() == static_cast<base*>(p) && alive == 1 && b.get().b == v, "conversion to a base gives the object");
		auto other = utki::make_unique<unrelated>(v);
		auto q = &other.get();
		vp_ensures(alive == 2, "two objects");
		b = std::move(other);
		vp_ensures(alive == 1 && destroyed == 1 && &b.get() == q, "the object replaced is destroyed, the other one kept");
		auto ptr = std::move(b).to_unique_ptr();
		vp_ensures(ptr.get() == q && alive == 1, "ownership is handed out");
		utki::unique_ref<base> again(std::move(ptr));
		vp_ensures(&again.get() == q && !ptr, "ownership is taken");
	}
	vp_ensures(alive == 0 && destroyed == 2, "every object is destroyed once");
	vp_reach("done");
}
#ifdef DEBUG
// debug builds: no reference can be made from a null pointer
VP_HARNESS(null_shared)
{
	vp_aborts();
	std::shared_ptr<unrelated> p;
	utki::shared_ref<unrelated> r(p);
	vp_ensures(false, "making a shared reference from a null pointer aborts");
}
VP_HARNESS(null_unique)
{
	vp_aborts();
	utki::unique_ref<unrelated> r{std::unique_ptr<unrelated>()};
	vp_ensures(false, "making a unique reference from a null pointer aborts");
}
VP_HARNESS(moved_from)
{
	auto r = utki::make_shared<unrelated>(1);
	auto s = std::move(r);
	vp_aborts();
	r.get();
	vp_ensures(false, "access through a moved-from reference aborts");
}
VP_HARNESS(moved_from_unique)
{
	auto r = utki::make_unique<unrelated>(1);
	auto s = std::move(r);
	vp_aborts();
	r.get();
	vp_ensures(false, "access through a moved-from reference aborts");
}
#endif
