// @threads
// @bounds 3 feeder steps (feeds, clock advances), with an arbitrary timeout and arbitrary advances of up to about 1 s and 2 s in ns, expiry of the wait at any later moment, destruction at any point; at most 2 (thorough 3) preemptions plus every choice at blocking points, one spurious wake-up
// @stub the clock: starts at a fixed instant and moves only by the feeder's advances and by expiring waits
// @outside more steps; a watchdog thread that the system never schedules
#include "common.h"
#include <stdex/watchdog.hpp>
#include <atomic>
using namespace std;
typedef stdex::watchdog<chrono::steady_clock> wd_t;
static uint64_t T; // the timeout
static atomic<uint64_t> last;  // a moment not after the last recorded feed
static atomic<bool> missed;    // a full timeout passed between two recorded feeds: its callback may come any time later
static void start() { T = sx_range(1, 1u << 30, "timeout"); last = sx_now(); missed = false; }
static atomic<int> calls, feeds;
static atomic<int> callsAtFeed;
static void feed(stdex::watchdog<chrono::steady_clock>& w)
{
	uint64_t t0 = sx_now();
	w.reset();
	if (sx_now() - last >= T) missed = true;
	last = t0;
	feeds++;
}
static void fired()
{
	uint64_t now = sx_now();
	calls++;
	uint64_t l = last; // before missed: a feed recorded meanwhile must not hide its gap
	bool m = missed;
	sx_check(m || now >= l + T, "the callback comes only after a full timeout without a feed");
	missed = false;
	sx_cover("callback");
}
SX_CASE(never_fed)
{
	sx_preempt_bound(sx_bound(2, 3)); sx_spurious(1);
	start();
	{
		wd_t w(chrono::nanoseconds(T), fired);
		while (!calls) this_thread::yield(); // the only way on is the expiry
		sx_check(calls == 1, "one callback per missed deadline");
	}
	sx_check(calls == 1, "one callback per missed deadline");
	sx_cover("expired");
}
SX_CASE(steps)
{
	sx_preempt_bound(sx_bound(2, 3)); sx_spurious(1);
	start();
	{
		wd_t w(chrono::nanoseconds(T), fired);
		for (unsigned k = 0; k < 3; k++) {
			switch (sx_choose(3, "op")) {
			case 0: feed(w); break;
			case 1: sx_advance(sx_range(0, 1u << 31, "advance")); break;
			case 2: sx_sched_point(); break;
			}
			sx_check(calls <= feeds + 1, "at most one callback per feed");
		}
	}
	int c = calls;
	sx_check(c <= feeds + 1, "at most one callback per feed");
	sx_sched_point();
	sx_check(calls == c, "no callback once it is destroyed");
	if (!c) sx_cover("stopped in time");
	if (feeds == 2) sx_cover("fed twice");
}
// a feed re-arms the watchdog after a miss
SX_CASE(rearmed)
{
	sx_preempt_bound(sx_bound(1, 2)); sx_spurious(1);
	start();
	{
		wd_t w(chrono::nanoseconds(T), fired);
		while (!calls) this_thread::yield();
		feed(w);
		while (calls < 2) this_thread::yield();
	}
	sx_check(calls == 2, "one callback per missed deadline");
	sx_cover("second miss");
}
// destruction always ends the thread, whatever it is doing
SX_CASE(destroy)
{
	sx_preempt_bound(sx_bound(3, 5)); sx_spurious(1);
	start();
	{ wd_t w(chrono::nanoseconds(T), fired); if (sx_choose(2, "feed")) { feed(w); } }
	sx_check(calls <= 2, "bounded");
	sx_cover("destroyed");
}
