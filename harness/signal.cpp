// signal: connected slots are called once, in order, with the values emitted
#include "vp.hpp"
#include "stdlist.hpp"
#include <memory>
#include <utki/signal.hpp>
static const unsigned MAXC = 64;
// calls recorded: which slot, with which values
static unsigned CALLS;
static unsigned WHO[MAXC];
static uint64_t WHAT[MAXC], WHAT2[MAXC];
static void called(unsigned who, uint64_t a, uint64_t b = 0)
{
	if (CALLS < MAXC) {
		WHO[CALLS] = who;
		WHAT[CALLS] = a;
		WHAT2[CALLS] = b;
	}
	++CALLS;
}
// specification: the slots connected, in order of connecting
struct spec {
	unsigned n = 0;
	unsigned slot[MAXC];
	void add(unsigned s) { slot[n++] = s; }
	void remove(unsigned at)
	{
		for (unsigned i = at; i + 1 < n; ++i) slot[i] = slot[i + 1];
		--n;
	}
	void check(uint64_t a, uint64_t b = 0) const
	{
		vp_ensures(CALLS == n, "each connected slot is called exactly once, no other slot is called");
		if (CALLS != n) return;
		for (unsigned i = 0; i != n; ++i) {
			vp_ensures(WHO[i] == slot[i], "slots are called in the order of connecting");
			vp_ensures(WHAT[i] == a && WHAT2[i] == b, "each slot gets the values emitted");
		}
	}
};
// the same value, one path for each
static unsigned pin(unsigned x, unsigned n)
{
	for (unsigned i = 0; i != n; ++i)
		if (x == i) return i;
	return n;
}
// a history of connecting, disconnecting and emitting
template <class S, class Connect, class Emit>
static void history(S& s, unsigned steps, Connect connect, Emit emit)
{
	spec now;
	typename S::connection con[40]; // connections in order
	unsigned next = 1;
	const unsigned max = vp_native() ? 40 : 8;
	for (unsigned k = 0; k != steps; ++k) {
		unsigned op = unsigned(vp_any("op", vp_native() ? 4 : 3));
		op = vp_native() ? op % 7 : pin(op, 7);
		if (op == 0 || now.n == 0) {
			if (now.n == max) break;
			auto c = connect(next);
			con[now.n] = c;
			now.add(next++);
		} else if (op == 1) {
			CALLS = 0;
			emit(now);
		} else {
			unsigned at = op - 2;
			if (vp_native()) at = unsigned(at * now.n / 5 + vp_any("at", 3)) % now.n;
			if (at >= now.n) break; // (proof: the same history without this step)
			s.disconnect(con[at]);
			for (unsigned i = at; i + 1 < now.n; ++i) con[i] = con[i + 1];
			now.remove(at);
		}
		vp_ensures(s.size() == now.n, "the number of slots is the number connected");
		vp_ensures(s.empty() == (now.n == 0), "empty exactly when no slot is connected");
	}
	CALLS = 0;
	emit(now);
	vp_reach("done");
	while (now.n != 0) {
		s.disconnect(con[now.n - 1]);
		--now.n;
	}
	CALLS = 0;
	emit(now);
	vp_ensures(s.empty(), "empty when all are disconnected");
}
static unsigned steps(unsigned n) { return vp_native() ? unsigned(vp_any("steps", 5)) : n; }
VP_HARNESS(history_values_5)
{
	utki::signal<uint32_t, uint64_t> s;
	uint32_t a = vp_val<uint32_t>("a");
	uint64_t b = vp_val<uint64_t>("b");
	history(
		s,
		steps(5),
		[&](unsigned id) { return s.connect([id](uint32_t x, uint64_t y) { called(id, x, y); }); },
		[&](const spec& now) {
			s.emit(a, b);
			now.check(a, b);
		}
	);
}
VP_HARNESS(history_none_5)
{
	utki::signal<> s;
	history(
		s,
		steps(5),
		[&](unsigned id) { return s.connect([id] { called(id, 0); }); },
		[&](const spec& now) {
			s.emit();
			now.check(0);
		}
	);
}
// argument of class type by value: every slot gets the value, also when an earlier one takes it
struct val {
	uint32_t v;
	bool gone = false;
	explicit val(uint32_t v) : v(v) {}
	val(const val& o) : v(o.v), gone(o.gone) {}
	val(val&& o) : v(o.v), gone(o.gone) { o.v = 0; o.gone = true; }
};
VP_HARNESS(history_class_4)
{
	utki::signal<val> s;
	uint32_t a = vp_val<uint32_t>("a");
	history(
		s,
		steps(4),
		[&](unsigned id) {
			return s.connect([id](val x) {
				called(id, x.v, x.gone);
				val y(std::move(x));
			});
		},
		[&](const spec& now) {
			s.emit(val(a));
			now.check(a);
		}
	);
}
// references: every slot refers to the object given
VP_HARNESS(history_reference_4)
{
	utki::signal<uint32_t&, const uint32_t&> s;
	uint32_t a = 0;
	uint32_t b = vp_val<uint32_t>("b");
	bool same = true;
	history(
		s,
		steps(4),
		[&](unsigned id) {
			return s.connect([id, &a, &b, &same](uint32_t& x, const uint32_t& y) {
				if (&x != &a || &y != &b) same = false;
				++x;
				called(id, 0, y);
			});
		},
		[&](const spec& now) {
			uint32_t before = a;
			s.emit(a, b);
			vp_ensures(same, "the references emitted are passed on");
			vp_ensures(a == before + now.n, "every slot acts on the object");
			now.check(0, b);
		}
	);
}
// a value that can not be copied reaches the slot
VP_HARNESS(move_only)
{
	utki::signal<std::unique_ptr<uint32_t>> s;
	uint32_t a = vp_val<uint32_t>("a");
	auto c = s.connect([](std::unique_ptr<uint32_t> p) { called(1, p ? *p : 0, p != nullptr); });
	CALLS = 0;
	auto p = std::make_unique<uint32_t>(a);
	s.emit(std::move(p));
	vp_reach("done");
	vp_ensures(CALLS == 1 && WHO[0] == 1 && WHAT[0] == a && WHAT2[0] == 1, "the value reaches the slot");
	s.disconnect(c);
}

// any number of slots: emit, connect and disconnect against the contract of std::list as a sequence; element k of it
// is represented by the address NODES + k
#ifdef VP_PROOF
using fn2 = std::function<void(uint32_t, uint64_t)>;
using list2 = std::list<fn2>;
static char* NODES;
static size_t LEN, NCALLS;
static uint32_t EA;
static uint64_t EB;
static size_t PUSHED, ERASED, WHICH;
static list2* THE;
static char* node(size_t k) { return NODES + k; }
extern "C" void* vpc_begin(const list2* l)
{
	vp_ensures(THE == nullptr || l == THE, "the list of the signal");
	return node(0);
}
extern "C" void* vpc_end(const list2*) { return node(LEN + PUSHED); }
extern "C" void* vpc_inc(char** it) // ++it
{
	vp_ensures(*it < node(LEN + PUSHED), "precondition: not the end");
	++*it;
	return it;
}
extern "C" void* vpc_dec(char** it)
{
	vp_ensures(*it > node(0), "precondition: not the begin");
	--*it;
	return it;
}
extern "C" void* vpc_deref(char** it)
{
	vp_ensures(*it < node(LEN + PUSHED), "precondition: an element");
	return *it;
}
extern "C" size_t vpc_size(const list2*) { return LEN + PUSHED - ERASED; }
extern "C" void vpc_call(const char* f, uint32_t a, uint64_t b)
{
	vp_ensures(f == node(NCALLS), "slots are called in the order of connecting, each once");
	vp_ensures(a == EA && b == EB, "each slot gets the values emitted");
	++NCALLS;
}
extern "C" void vpc_push_back(list2*, fn2* f)
{
	NCALLS = 0;
	++PUSHED;
}
extern "C" void* vpc_erase(list2*, char* at)
{
	vp_ensures(at < node(LEN + PUSHED), "precondition: an element");
	WHICH = at - NODES;
	++ERASED;
	return at + 1;
}
static void some()
{
	LEN = vp_len("slots");
	NODES = static_cast<char*>(vp_buf("nodes", LEN + 2));
	NCALLS = PUSHED = ERASED = 0;
	THE = nullptr;
}
#endif
VP_HARNESS(any_emit)
{
#ifdef VP_PROOF
	some();
	EA = vp_val<uint32_t>("a");
	EB = vp_val<uint64_t>("b");
	alignas(utki::signal<uint32_t, uint64_t>) char mem[sizeof(utki::signal<uint32_t, uint64_t>)];
	auto& s = *reinterpret_cast<utki::signal<uint32_t, uint64_t>*>(mem);
	s.emit(EA, EB);
	vp_reach("done");
	vp_ensures(NCALLS == LEN, "all slots are called");
	vp_ensures(PUSHED == 0 && ERASED == 0, "the slots connected stay");
#endif
}
VP_HARNESS(any_connect)
{
#ifdef VP_PROOF
	some();
	alignas(utki::signal<uint32_t, uint64_t>) char mem[sizeof(utki::signal<uint32_t, uint64_t>)];
	auto& s = *reinterpret_cast<utki::signal<uint32_t, uint64_t>*>(mem);
	auto c = s.connect([](uint32_t, uint64_t) {});
	vp_reach("done");
	vp_ensures(PUSHED == 1 && ERASED == 0, "one slot is appended");
	vp_ensures(reinterpret_cast<char*>(c._M_node) == node(LEN), "the connection is that of the slot appended");
	vp_ensures(s.size() == LEN + 1 && !s.empty(), "number of slots");
#endif
}
VP_HARNESS(any_disconnect)
{
#ifdef VP_PROOF
	some();
	size_t k = vp_any("k", 64);
	vp_requires(k < LEN);
	alignas(utki::signal<uint32_t, uint64_t>) char mem[sizeof(utki::signal<uint32_t, uint64_t>)];
	auto& s = *reinterpret_cast<utki::signal<uint32_t, uint64_t>*>(mem);
	s.disconnect(utki::signal<uint32_t, uint64_t>::connection(reinterpret_cast<std::__detail::_List_node_base*>(node(k))));
	vp_reach("done");
	vp_ensures(PUSHED == 0 && ERASED == 1 && WHICH == k, "exactly the slot of the connection is removed");
	vp_ensures(s.size() == LEN - 1 && s.empty() == (LEN == 1), "number of slots");
#endif
}
