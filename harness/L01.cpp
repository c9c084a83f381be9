// @threads
// @bounds two threads with two critical sections each and three threads with one each, blocking and non-blocking acquisition mixed; at most 3 (thorough 4) preemptions plus every choice at blocking points
// @outside more threads or preemptions; weak memory is covered through the happens-before race check only
#include "common.h"
#include <stdex/spinlock.hpp>
#include <mutex>
#include <thread>
using namespace std;
static int in_, counter;
static void section(stdex::spinlock& l, bool tryit, int& wins)
{
	if (tryit) { if (!l.try_lock()) return; } else l.lock();
	sx_check(in_ == 0, "one thread at a time");
	in_ = 1;
	sx_sched_point();
	counter++;
	sx_check(in_ == 1, "one thread at a time");
	in_ = 0;
	wins++;
	l.unlock();
}
SX_CASE(two)
{
	sx_preempt_bound(sx_bound(3, 4));
	stdex::spinlock l; int w1 = 0, w2 = 0;
	bool t1 = sx_choose(2, "try") != 0, t2 = sx_choose(2, "try") != 0;
	thread a([&] { section(l, false, w1); section(l, t1, w1); });
	section(l, t2, w2); section(l, false, w2);
	a.join();
	sx_check(counter == w1 + w2, "what one holder wrote is visible to the next");
	sx_check(w1 >= 1 && w2 >= 1, "a blocking acquisition succeeds");
	sx_check(l.try_lock(), "free again at the end");
	sx_check(!l.try_lock(), "a non-blocking attempt fails while it is held");
	l.unlock();
	sx_check(l.try_lock(), "and succeeds once released");
	sx_cover("two threads");
}
SX_CASE(three)
{
	sx_preempt_bound(sx_bound(2, 3));
	stdex::spinlock l; int w1 = 0, w2 = 0, w3 = 0;
	bool t1 = sx_choose(2, "try") != 0;
	thread a([&] { section(l, false, w1); });
	thread b([&] { section(l, t1, w2); });
	section(l, false, w3);
	a.join(); b.join();
	sx_check(counter == w1 + w2 + w3 && w1 == 1 && w3 == 1, "what one holder wrote is visible to the next");
	sx_cover("three threads");
}
// a non-blocking attempt fails only when somebody holds the lock
SX_CASE(attempt)
{
	sx_preempt_bound(sx_bound(3, 4));
	stdex::spinlock l; int w = 0, got = 0;
	thread a([&] { for (int i = 0; i < 2; i++) if (l.try_lock()) { got++; counter++; l.unlock(); } });
	a.join();
	sx_check(got == 2, "a non-blocking attempt succeeds when nobody holds the lock");
	lock_guard<stdex::spinlock> g(l);
	thread b([&] { sx_check(!l.try_lock(), "a non-blocking attempt fails while it is held"); });
	b.join();
	sx_cover("attempt");
}
