// @bounds every history of 5 (thorough 7) writes and reads of 0..3 bytes, then draining; closing at any point
// @outside longer histories; allocation failure
#include "mock.h"
using namespace std;
using namespace stdex::stream;
SX_CASE(history)
{
	uint64_t live = sx_live_blocks();
	{
		fifo f;
		uint8_t q[32], out[8]; size_t head = 0, tail = 0;
		for (unsigned k = 0, steps = sx_bound(5, 7); k < steps; k++) {
			unsigned op = sx_choose(9, "op");
			if (op < 4) {
				sx_symbolic(q + tail, op, "data");
				uint8_t src[4]; memcpy(src, q + tail, op);
				sx_check(f.write(src, op) == op && f.ok(), "a write accepts everything");
				memset(src, 0xdd, 4);
				tail += op;
			} else if (op < 8) {
				size_t len = op - 4, want = min(len, tail - head);
				memset(out, 0xee, 8);
				size_t r = f.read(out, len);
				sx_check(r == want, "a read delivers what there is");
				sx_check(sx_memeq(out, q + head, want) && out[want] == 0xee, "the bytes come out in order");
				sx_check(f.state() == (len && !want ? state_t::eof : state_t::ok), "an empty FIFO reports the end");
				head += want;
				if (want == 3) sx_cover("read over several writes");
			} else { f.close(); head = tail; sx_check(f.ok(), "closed"); }
			sx_check(f.size() == tail - head, "size is the number of bytes not yet read");
		}
		if (sx_choose(2, "drain")) {
			uint8_t b;
			for (; head < tail; head++) sx_check(f.read(&b, 1) == 1 && b == q[head], "everything can be read");
			sx_check(f.read(&b, 1) == 0 && f.state() == state_t::eof && f.size() == 0, "then comes the end");
		}
	}
	sx_check(sx_live_blocks() == live, "all memory is returned");
}
