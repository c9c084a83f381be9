// @threads
// @bounds single-thread histories of 5 (thorough 7) takes/returns/clears over 2 NUMA nodes and up to 3 resources; two and three threads each taking and returning, at most 2 (thorough 3) preemptions plus every choice at blocking points
// @stub numa_node_of_cpu()/sched_getcpu(): an arbitrary node of two per call in the histories, constant in the threaded cases
// @outside more threads; weak-memory behaviour beyond the happens-before race check
#include "common.h"
#include <stdex/pool.hpp>
#include <memory>
#include <thread>
using namespace std;
static int node; 
extern "C" int numa_node_of_cpu(int) { return node; }
extern "C" int sched_getcpu() noexcept { return 0; }
static int destroyed[8];
struct res { int id; res(int i) : id(i) {} ~res() { destroyed[id]++; } };
typedef unique_ptr<res> ptr;
SX_CASE(history)
{
	uint64_t blocks = sx_live_blocks();
	{
		stdex::pool<ptr> p;
		ptr held[4]; unsigned nheld = 0; int made = 0;
		int where[8]; for (int& w : where) w = -1; // node of a pooled resource
		for (unsigned s = 0; s < sx_bound(5, 7); s++) {
			node = (int)sx_choose(2, "node");
			bool expl = s & 1;
			switch (sx_choose(4, "op")) {
			case 0: { // take, make one when there is none
				unsigned avail = 0; for (int i = 0; i < made; i++) avail += where[i] == node;
				ptr x = expl ? p.pop(node) : p.pop();
				sx_check(!!x == (avail > 0), "taking yields a resource exactly when one is available on this node");
				if (x) { sx_check(where[x->id] == node && !destroyed[x->id], "a pooled resource is handed out"); where[x->id] = -1; sx_cover("reused"); }
				else { if (made >= 3) break; x.reset(new res(made++)); }
				if (nheld < 4) held[nheld++] = move(x);
				break;
			}
			case 1: // return
				if (nheld) { int id = held[nheld - 1]->id; where[id] = node; if (expl) p.push(move(held[--nheld]), node); else p.push(move(held[--nheld])); sx_check(!destroyed[id], "a returned resource is kept"); }
				break;
			case 2: { // destroy what is held
				if (nheld) { int id = held[nheld - 1]->id; held[--nheld].reset(); sx_check(destroyed[id] == 1, "a held resource is destroyed by its holder"); where[id] = -2; }
				break;
			}
			case 3:
				p.clear();
				for (int i = 0; i < made; i++) if (where[i] >= 0) { sx_check(destroyed[i] == 1, "clearing destroys what is pooled"); where[i] = -2; }
				break;
			}
			for (int i = 0; i < made; i++) sx_check(destroyed[i] == (where[i] == -2), "nothing is destroyed early or twice");
		}
		if (nheld == 2) sx_cover("two held");
	}
	for (int i = 0; i < 8; i++) sx_check(destroyed[i] <= 1, "every resource is destroyed exactly once");
	sx_check(sx_live_blocks() == blocks, "no resource is leaked");
}
static int holder[8];
static void work(stdex::pool<ptr>& p, int fresh, unsigned rounds)
{
	for (unsigned k = 0; k < rounds; k++) {
		ptr x = p.pop();
		if (!x) x.reset(new res(fresh++));
		int id = x->id;
		holder[id]++; // a second holder at the same time is a data race or a wrong count
		sx_check(holder[id] == 1, "a resource has one holder at a time");
		sx_sched_point();
		sx_check(holder[id] == 1 && !destroyed[id], "a resource has one holder at a time");
		holder[id]--;
		p.push(move(x));
	}
}
static void threads(unsigned extra, unsigned rounds)
{
	uint64_t blocks;
	{
		stdex::pool<ptr> p;
		{ ptr seed(new res(7)); p.push(move(seed)); }
		thread a([&] { work(p, 0, rounds); });
		if (extra) { thread b([&] { work(p, 2, 1); }); work(p, 4, 1); b.join(); } else work(p, 4, rounds);
		a.join();
		unsigned n = 0; while (ptr x = p.pop()) { sx_check(!destroyed[x->id], "alive"); n++; x.release(); }
		sx_check(n >= 1 && n <= 3, "every returned resource is available again, once");
	}
	sx_cover("threads done");
}
SX_CASE(two_threads) { sx_preempt_bound(sx_bound(2, 3)); threads(0, 1); }
SX_CASE(three_threads) { sx_preempt_bound(sx_bound(1, 2)); threads(1, 1); }
SX_CASE(T_two_threads_twice) { sx_preempt_bound(2); threads(0, 2); }
// nodes appear while others are in use: an entry once handed out stays valid
SX_CASE(two_nodes)
{
	sx_preempt_bound(sx_bound(2, 3));
	stdex::pool<ptr> p;
	thread a([&] { ptr x = p.pop(0); if (!x) x.reset(new res(0)); p.push(move(x), 0); });
	{ ptr y = p.pop(1); sx_check(!y, "an empty node yields nothing"); y.reset(new res(1)); p.push(move(y), 1); }
	{ ptr y = p.pop(1); sx_check(y && y->id == 1, "the resource comes back from its node"); p.push(move(y), 1); }
	if (sx_choose(2, "clear")) p.clear();
	a.join();
	p.clear();
	sx_check(destroyed[0] == 1 && destroyed[1] == 1, "every resource is destroyed exactly once");
	sx_cover("nodes");
}
