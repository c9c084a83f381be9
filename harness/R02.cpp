// @threads
// @bounds capacity 2, up to 3 bytes published before or around the quit, quit from the producer, the consumer or a third thread; at most 2 (thorough 4) preemptions plus every choice at blocking points, one spurious wake-up
// @assume one producer thread and one consumer thread, as documented; waiting until everything is consumed is done by the producer
// @outside more preemptions; weak-memory behaviour beyond the happens-before race check
#include "common.h"
#include <stdex/ring.hpp>
#include <thread>
using namespace std;
typedef stdex::ring<uint8_t, 2> ring_t;
// consumer drains until it is told there is no more
static unsigned drain(ring_t& r, const uint8_t* expect, unsigned total, bool final = true)
{
	unsigned got = 0;
	for (;;) {
		auto f = r.front();
		uint8_t* p = get<0>(f); size_t n = get<1>(f);
		if (!n) { sx_check(!p, "no data means no pointer"); break; }
		sx_check(got + n <= total && sx_memeq(p, expect + got, n), "what was published before is delivered in order");
		size_t k = 1 + sx_choose((uint32_t)n, "take");
		got += (unsigned)k;
		r.pop(k);
	}
	if (!final) return got; // the producer may still publish what it was given space for
	auto f = r.front();
	sx_check(!get<0>(f) && !get<1>(f), "still no more data afterwards");
	return got;
}
// producer publishes n <= 3 bytes then quits
SX_CASE(producer_quits)
{
	sx_preempt_bound(sx_bound(2, 4)); sx_spurious(1);
	static uint8_t data[3]; sx_symbolic(data, 3, "data");
	unsigned n = sx_choose(4, "n"); bool sync = sx_choose(2, "sync first") != 0;
	ring_t r;
	thread t([&] {
		for (unsigned i = 0; i < n; i++) { auto b = r.back(); sx_check(get<0>(b) != nullptr, "space"); *get<0>(b) = data[i]; r.push(1); }
		if (sync) r.sync();
		r.quit();
	});
	unsigned got = drain(r, data, n);
	sx_check(got == n, "everything published before the quit is delivered");
	t.join();
	sx_cover("drained");
}
// a third party quits while the producer waits for space or for the buffer to drain; nobody consumes
SX_CASE(quit_releases_producer)
{
	sx_preempt_bound(sx_bound(2, 4)); sx_spurious(1);
	bool sync = sx_choose(2, "sync") != 0;
	ring_t r;
	thread t([&] {
		unsigned n = 0;
		if (sync) { auto b = r.back(); if (get<1>(b)) { r.push(1); r.sync(); } return; }
		for (;;) {
			auto b = r.back();
			if (!get<1>(b)) { sx_check(!get<0>(b), "no space means no pointer"); break; }
			sx_check(n < 2, "space is offered only while there is some");
			n++; r.push(1);
		}
		auto b = r.back();
		sx_check(!get<0>(b) && !get<1>(b), "still no space afterwards");
		sx_cover("producer released");
	});
	r.quit();
	t.join();
	r.sync(); // returns
	sx_cover("sync released");
}
SX_CASE(quit_releases_consumer)
{
	sx_preempt_bound(sx_bound(2, 4)); sx_spurious(1);
	static uint8_t data[2]; sx_symbolic(data, 2, "data");
	unsigned n = sx_choose(3, "n");
	ring_t r;
	for (unsigned i = 0; i < n; i++) { auto b = r.back(); *get<0>(b) = data[i]; r.push(1); }
	thread t([&] { unsigned got = drain(r, data, n); sx_check(got == n, "everything published before the quit is delivered"); });
	r.quit();
	t.join();
	sx_cover("consumer released");
}
// both sides wait in turn while a third thread quits
SX_CASE(quit_both)
{
	sx_preempt_bound(sx_bound(1, 3));
	static uint8_t data[3]; sx_symbolic(data, 3, "data");
	ring_t r;
	thread c([&] { drain(r, data, 3, false); });
	thread p([&] { for (unsigned i = 0; i < 3; i++) { auto b = r.back(); if (!get<0>(b)) return; *get<0>(b) = data[i]; r.push(1); } });
	r.quit();
	c.join(); p.join();
	sx_cover("both released");
}
// sync ends once drained, without any quit
SX_CASE(sync_drained)
{
	sx_preempt_bound(sx_bound(2, 4)); sx_spurious(1);
	ring_t r; unsigned n = sx_choose(3, "n"); unsigned taken = 0;
	for (unsigned i = 0; i < n; i++) { r.back(); r.push(1); }
	thread t([&] { for (unsigned i = 0; i < n; i++) { r.front(); taken++; r.pop(1); } });
	r.sync();
	sx_check(taken == n, "sync returns only when everything was consumed");
	t.join();
	sx_cover("synced");
}
// after quitting no space is offered, full or not
SX_CASE(no_space_after_quit)
{
	ring_t r; unsigned n = sx_choose(3, "n");
	for (unsigned i = 0; i < n; i++) { auto b = r.back(); *get<0>(b) = (uint8_t)i; r.push(1); }
	if (n && sx_choose(2, "pop")) { r.front(); r.pop(1); n--; }
	r.quit();
	auto b = r.back(); sx_check(!get<0>(b) && !get<1>(b), "no space is offered after quitting");
	unsigned got = 0; for (;;) { auto f = r.front(); if (!get<0>(f)) break; got += (unsigned)get<1>(f); r.pop(get<1>(f)); }
	sx_check(got == n, "what was published is still delivered");
	sx_cover("quit");
}
