// @threads
// @bounds 0..3 targets, 2 (thorough 3) writes of 1..2 arbitrary bytes each, targets attached and removed in between, flush and close, a target failing at any of its calls; every schedule with at most 2 (thorough 3) preemptions plus every choice at blocking points, one spurious wake-up
// @outside more preemptions and targets; weak-memory behaviour beyond the happens-before race check; failure to start a thread
#include "mock.h"
#include <thread>
using namespace std;
using namespace stdex::stream;
SX_CASE(writes)
{
	sx_preempt_bound(sx_bound(2, 3)); sx_spurious(1);
	uint64_t live = sx_live_blocks();
	uint8_t d[8]; sx_symbolic(d, 8, "data");
	{
		mock_sink t[2]; unsigned n = sx_choose(3, "targets");
		replicator r; for (unsigned i = 0; i < n; i++) r.push_back(&t[i]);
		size_t put = 0;
		for (unsigned k = 0; k < 2; k++) {
			size_t l = 1 + sx_choose(2, "len");
			sx_check(r.write(d + put, l) == l && r.ok(), "a write reports the bytes written");
			put += l;
			for (unsigned i = 0; i < n; i++) sx_check(t[i].n == put && sx_memeq(t[i].data, d, put), "every target has the bytes, in order, when the write returns");
		}
		if (n == 2) sx_cover("two targets");
	}
	sx_check(sx_live_blocks() == live, "everything is released");
}
SX_CASE(failing)
{
	sx_preempt_bound(sx_bound(2, 3));
	uint8_t d[8]; sx_symbolic(d, 8, "data");
	mock_sink t[2]; unsigned bad = sx_choose(2, "bad"); t[bad].failing = t[bad].partial = true;
	replicator r; r.push_back(&t[0]); r.push_back(&t[1]);
	size_t put = 0;
	for (unsigned k = 0; k < 2; k++) {
		size_t before = t[bad].n, w = r.write(d + put, 2); put += 2;
		sx_check(t[1 - bad].n == put && sx_memeq(t[1 - bad].data, d, put), "the other target has all the data");
		if (t[bad].failed) { sx_check(!r.ok() && w == t[bad].n - before, "a failing target is reported"); sx_cover("failed"); }
		else sx_check(r.ok() && w == 2 && sx_memeq(t[bad].data, d, put), "no failure is made up");
	}
	if (sx_choose(2, "flush")) { r.flush(); sx_check(t[0].flushes == 1 && t[1].flushes == 1, "every target is flushed"); }
	else { r.close(); sx_check(t[0].closes == 1 && t[1].closes == 1, "every target is closed"); }
	sx_check(r.ok() == !t[bad].failed, "failure of flushing and closing is reported");
}
SX_CASE(attach_remove)
{
	sx_preempt_bound(sx_bound(2, 3));
	uint8_t d[8]; sx_symbolic(d, 8, "data");
	mock_sink t[3]; size_t since[3] = {}, until[3] = {}; bool in[3] = {}; size_t put = 0; bool once[3] = {};
	{
		replicator r;
		for (unsigned k = 0, m = sx_bound(4, 5); k < m; k++) {
			unsigned op = sx_choose(3, "op"), i = op ? sx_choose(2, "which") : 0;
			if (op == 0) { sx_check(r.write(d + put, 1) == 1 && r.ok(), "write"); put++; }
			else if (op == 1) { if (in[i] || once[i]) continue; r.push_back(&t[i]); in[i] = once[i] = true; since[i] = put; }
			else { r.remove(&t[i]); if (in[i]) { in[i] = false; until[i] = put; sx_cover("removed"); } }
		}
		for (unsigned i = 0; i < 2; i++) if (in[i]) until[i] = put;
	}
	for (unsigned i = 0; i < 2; i++) sx_check(t[i].n == until[i] - since[i] && sx_memeq(t[i].data, d + since[i], t[i].n), "a target has exactly the bytes written while it was attached");
}
