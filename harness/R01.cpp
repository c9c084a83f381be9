// @threads
// @bounds capacity 2..3 (thorough 1..4), 4 (thorough 6) bytes of arbitrary content, producer and consumer each moving any number of the offered bytes per step, at most 2 (thorough 3) preemptions plus every choice at blocking points, one spurious wake-up; sequential histories of 6 (thorough 8) steps at capacities 1..5
// @assume one producer thread and one consumer thread, as documented
// @outside more preemptions; larger buffers; weak-memory behaviour beyond the happens-before race check
#include "common.h"
#include <stdex/ring.hpp>
#include <thread>
using namespace std;
template <size_t N>
static void spsc(unsigned total)
{
	sx_preempt_bound(sx_bound(2, 3)); sx_spurious(1);
	uint8_t data[8]; sx_symbolic(data, total, "data");
	stdex::ring<uint8_t, N> r;
	thread producer([&] {
		for (unsigned done = 0; done < total;) {
			uint8_t* p; size_t n;
			tie(p, n) = r.back();
			sx_check(p && n >= 1 && n <= N, "the producer is offered space");
			if (!p) return;
			memset(p, 0xee, n); // all of it may be used
			size_t k = 1 + sx_choose((uint32_t)min<size_t>(n, total - done), "fill");
			memcpy(p, data + done, k);
			done += (unsigned)k;
			r.push(k);
		}
		r.sync();
	});
	for (unsigned done = 0; done < total;) {
		uint8_t* p; size_t n;
		tie(p, n) = r.front();
		sx_check(p && n >= 1 && n <= N && n <= total - done, "the consumer is offered published bytes only");
		if (!p) return;
		sx_check(sx_memeq(p, data + done, n), "the consumer sees the published bytes in order");
		size_t k = 1 + sx_choose((uint32_t)n, "take");
		memset(p, 0xdd, k);
		done += (unsigned)k;
		r.pop(k);
	}
	producer.join();
	sx_cover("all transferred");
}
SX_CASE(spsc2) { spsc<2>(sx_bound(4, 5)); }
SX_CASE(spsc3) { spsc<3>(sx_bound(4, 5)); }
SX_CASE(T_spsc1) { spsc<1>(3); }
SX_CASE(T_spsc4) { spsc<4>(6); }
// one thread, every split: offered areas never overlap what is not consumed, and content survives
template <size_t N>
static void sequential(unsigned steps)
{
	stdex::ring<uint8_t, N> r;
	uint8_t q[64]; unsigned head = 0, tail = 0;
	uint8_t* base = nullptr;
	for (unsigned s = 0; s < steps; s++) {
		unsigned used = tail - head;
		if (used < N && (used == 0 || sx_choose(2, "step"))) {
			auto b = r.back(); uint8_t* p = get<0>(b); size_t n = get<1>(b);
			sx_check(p && n >= 1 && used + n <= N, "space offered is free space");
			memset(p, 0xee, n);
			size_t k = sx_choose((uint32_t)n + 1, "fill");
			for (size_t i = 0; i < k; i++) p[i] = q[tail++] = sx_u8("byte");
			r.push(k);
		} else {
			auto f = r.front(); uint8_t* p = get<0>(f); size_t n = get<1>(f);
			sx_check(p && n >= 1 && n <= used, "data offered is published data");
			sx_check(sx_memeq(p, q + head, n), "data offered is what was published, in order");
			size_t k = sx_choose((uint32_t)n + 1, "take");
			memset(p, 0xdd, k);
			head += (unsigned)k;
			r.pop(k);
		}
	}
	if (tail > N) sx_cover("wrapped");
}
SX_CASE(sequential1) { sequential<1>(sx_bound(6, 8)); }
SX_CASE(sequential2) { sequential<2>(sx_bound(6, 8)); }
SX_CASE(sequential3) { sequential<3>(sx_bound(5, 7)); }
SX_CASE(sequential5) { sequential<5>(sx_bound(4, 5)); }
