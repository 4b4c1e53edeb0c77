// Mutual exclusion and publication by the spin lock: rely-guarantee contracts of its atomic operations.
// Ghost state OWNER: who is between lock and unlock.  Invariant of every thread: flag set <=> OWNER != NOBODY.
// rely:      other threads only take the lock when it is free and only release it when they own it
// guarantee: (obligations below) the same for every atomic operation lock() and unlock() make
// From these, mutual exclusion under all schedules follows (the invariant is kept by each atomic step); visibility from
// acquire in the step that takes the lock and release in the step that frees it.
#include "vp.hpp"
#include <atomic>
#include <sys/time.h>
#include <thread>
#include <utki/spin_lock.hpp>
enum { NOBODY, OTHER, ME };
static int OWNER;
static bool ACQ, ACQ_LATE; // the operation that took the lock is (followed by) an acquire operation
static bool REL; // a release fence is pending
static size_t NOW, FREE; // number of operations so far; how many the lock may be owned by others (fairness)
static int RELEASED;

#ifdef VP_PROOF
// memory orders of LLVM
enum { RELAXED = 2, ACQUIRE = 4, RELEASE = 5, ACQ_REL = 6, SEQ_CST = 7 };
static bool acquires(unsigned o) { return VP_OR(o == ACQUIRE, VP_OR(o == ACQ_REL, o == SEQ_CST)); }
static bool releases(unsigned o) { return VP_OR(o == RELEASE, VP_OR(o == ACQ_REL, o == SEQ_CST)); }
static void* LOCK;
static void mine(void* p) { vp_ensures(vp_same_object(p, LOCK), "only the lock is accessed"); }
// what the other threads may do between two of our steps
static void others()
{
	if (OWNER != ME) OWNER = NOW < FREE ? int(vp_any("others", 1)) : int(NOBODY);
	if (NOW < FREE) ++NOW;
}
static bool take(unsigned o)
{
	others();
	vp_ensures(OWNER != ME, "a thread that has taken the lock does not wait for it");
	if (OWNER != NOBODY) return true;
	OWNER = ME;
	ACQ = acquires(o);
	return false;
}
static void release(unsigned o)
{
	others();
	vp_ensures(OWNER == ME, "only the thread that owns the lock frees it");
	vp_ensures(VP_OR(releases(o), REL), "what was written before is published: freeing the lock is a release operation");
	OWNER = NOBODY;
	++RELEASED;
}
extern "C" uint64_t vpc_atomic_load(void* p, unsigned)
{
	mine(p);
	others();
	return OWNER != NOBODY;
}
extern "C" void vpc_atomic_store(void* p, uint64_t v, unsigned o)
{
	mine(p);
	vp_ensures(v == 0, "the lock is taken by a read-modify-write operation only");
	release(o);
}
extern "C" uint64_t vpc_atomic_rmw(void* p, unsigned op, uint64_t v, unsigned o)
{
	mine(p);
	vp_ensures(VP_OR(op == 0, op == 1) && v <= 1, "the flag is exchanged with 0 or 1");
	if (v != 0) return take(o);
	if (op == 1) { // or 0
		others();
		return OWNER != NOBODY;
	}
	release(o);
	return 1;
}
extern "C" uint64_t vpc_atomic_cas(void* p, uint64_t expected, uint64_t v, unsigned o)
{
	mine(p);
	others();
	uint64_t now = OWNER != NOBODY, done = uint64_t(1) << 63;
	if (now != expected) return now;
	if (NOW < FREE && vp_any("spurious failure", 1)) return now;
	if (v == now) return now | done;
	vp_ensures(v <= 1, "the flag is exchanged with 0 or 1");
	if (v == 0) {
		vp_ensures(OWNER == ME, "only the thread that owns the lock frees it");
		vp_ensures(VP_OR(releases(o), REL), "what was written before is published: freeing the lock is a release operation");
		OWNER = NOBODY;
		++RELEASED;
	} else {
		OWNER = ME;
		ACQ = acquires(o);
	}
	return now | done;
}
extern "C" void vpc_atomic_fence(unsigned o)
{
	if (releases(o)) REL = true;
	if (acquires(o) && OWNER == ME) ACQ_LATE = true;
}
#endif

#ifndef VP_PROOF
static void* LOCK;
#endif
static void start(int owner, void* l)
{
	LOCK = l;
	OWNER = owner;
	ACQ = ACQ_LATE = REL = false;
	NOW = 0;
	RELEASED = 0;
	FREE = vp_len("free");
}
VP_HARNESS(lock)
{
	utki::spin_lock l;
	if (vp_native()) return;
	start(NOBODY, &l);
	l.lock();
	vp_reach("locked");
	vp_ensures(OWNER == ME, "lock() returns only when this thread has taken the lock");
	vp_ensures(VP_OR(ACQ, ACQ_LATE), "what was published is visible: taking the lock is an acquire operation");
	vp_ensures(RELEASED == 0, "lock() frees nothing");
}
VP_HARNESS(unlock)
{
	utki::spin_lock l;
	if (vp_native()) return;
	start(ME, &l);
	l.unlock();
	vp_reach("unlocked");
	vp_ensures(RELEASED == 1 && OWNER != ME, "unlock() frees the lock");
}
// one thread alone, real atomic operations: a new lock is free, and free again after unlocking
VP_HARNESS(alone)
{
	utki::spin_lock l;
	l.lock();
	vp_reach("locked");
	l.unlock();
	l.lock();
	vp_reach("locked again");
	l.unlock();
	utki::spin_lock m;
	m.lock();
	l.lock();
	vp_reach("two locks");
	m.unlock();
	l.unlock();
	vp_ensures(true, "a free lock is taken");
}
#ifndef VP_PROOF
VP_HARNESS(threads)
{
	// waiting threads may be scheduled badly: not the usual time limit of a run
	struct itimerval tv = {{0, 0}, {200, 0}};
	setitimer(ITIMER_REAL, &tv, nullptr);
	unsigned n = 2 + vp_any("threads", 8) % 3, m = 1 + vp_any("rounds", 6);
	utki::spin_lock l;
	unsigned count = 0, inside = 0;
	bool shared = false;
	{
		std::vector<std::thread> t;
		for (unsigned i = 0; i != n; ++i)
			t.emplace_back([&] {
				for (unsigned k = 0; k != m; ++k) {
					l.lock();
					++inside;
					if (k % 8 == 0) std::this_thread::yield();
					if (inside != 1) shared = true;
					++count;
					--inside;
					l.unlock();
				}
			});
		for (auto& x : t) x.join();
	}
	tv.it_value.tv_sec = 60;
	setitimer(ITIMER_REAL, &tv, nullptr);
	vp_ensures(!shared, "one thread at a time");
	vp_ensures(count == n * m, "no update is lost");
}
#endif
