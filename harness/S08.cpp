// @threads
// @bounds ring buffers of 2 and 3 bytes, up to 4 (thorough 6) arbitrary bytes moved by 2 (thorough 3) calls of 1..3 bytes, sources and targets transferring any part per call, failing at any call, or ending; flush, close and destruction at any point; every schedule with at most 2 (thorough 3) preemptions plus every choice at blocking points
// @assume one thread uses the stream object
// @outside more preemptions and data; weak-memory behaviour beyond the happens-before race check; failure to start a thread; flushing an asynchronous reader
#include "mock.h"
#include <thread>
using namespace std;
using namespace stdex::stream;
SX_CASE(reader)
{
	sx_preempt_bound(sx_bound(2, 3));
	mock_source s(sx_choose(sx_bound(4, 5), "n"), "data"); s.partial = true; s.max_partial = 1; s.failing = sx_choose(2, "failing"); s.eof_with_data = sx_choose(2, "eof");
	uint8_t out[16]; size_t got = 0; bool end = false;
	{
		async_reader<2> r(s);
		for (unsigned k = 0, m = sx_bound(3, 4); k < m && !end; k++) {
			size_t l = 1 + sx_choose(3, "len"); memset(out + got, 0xee, sizeof(out) - got);
			size_t x = r.read(out + got, l);
			sx_check(x <= l && got + x <= s.n && sx_memeq(out + got, s.data + got, x) && out[got + x] == 0xee, "the source's bytes arrive in order");
			got += x;
			if (x < l) {
				if (x) { sx_check(r.ok(), "some data: success"); x = r.read(out + got, 1); sx_check(!x, "nothing follows the end"); }
				sx_check(!r.ok(), "the end or failure is reported"); end = true;
				sx_check(r.state() == (s.failed ? state_t::fail : state_t::eof), "as what it is");
				sx_check(got == s.pos, "but only after all data"); sx_check(s.failed || got == s.n, "all the data");
				sx_cover("end");
			} else sx_check(r.ok(), "success");
		}
	}
	if (!end) sx_cover("stopped early");
}
SX_CASE(reader_close)
{
	sx_preempt_bound(sx_bound(2, 3));
	mock_source s(4, "data"); uint8_t out[4];
	async_reader<2> r(s); size_t l = sx_choose(3, "len");
	if (l) sx_check(r.read(out, l) == l && sx_memeq(out, s.data, l), "read");
	r.close(); unsigned c = s.calls; sx_check(r.ok(), "close");
	this_thread::yield();
	sx_check(s.calls == c, "a closed source is left alone");
	sx_check(s.pos <= l + 2, "the source is read ahead by no more than the buffer");
	sx_cover("closed");
}
SX_CASE(writer)
{
	sx_preempt_bound(sx_bound(2, 3)); sx_spurious(sx_bound(0, 1));
	mock_sink t; t.failing = sx_choose(2, "failing"); t.partial = true;
	uint8_t d[16]; sx_symbolic(d, 16, "data"); size_t put = 0; bool failed = false; unsigned how;
	{
		async_writer<2> w(t);
		for (unsigned k = 0, m = sx_bound(2, 3); k < m && !failed; k++) {
			size_t l = 1 + sx_choose(3, "len"), x = w.write(d + put, l);
			sx_check(x <= l && w.ok() == (x == l), "the count is what was taken"); put += x;
			if (x < l) failed = true;
		}
		how = sx_choose(3, "how");
		if (how == 0) {
			w.flush(); // nothing is pending any more, one way or another
			sx_check(t.ever ? !w.ok() : w.ok(), "flushing reports whether everything has arrived");
			if (!t.ever) { sx_check(t.n == put && t.flushes, "everything has arrived after flushing"); sx_cover("flushed"); }
			else { sx_check(w.write(d, 1) == 0 && !w.ok(), "nothing is taken after a failure"); sx_cover("failure reported"); }
		} else if (how == 1) {
			w.close();
			sx_check(t.ever ? !w.ok() : w.ok(), "closing reports whether everything has arrived");
			if (!t.ever) sx_check(t.n == put, "everything has arrived when closing"); 
			sx_check(!t.late && t.closes == 1, "the target is closed after the last byte");
			sx_cover("closed");
		}
	}
	sx_check(t.n <= put && sx_memeq(t.data, d, t.n), "the target gets the bytes in order");
	if (!t.ever) { sx_check(!failed && t.n == put, "no byte is lost"); if (how == 2) sx_cover("drained by the destructor"); }
}
SX_CASE(writer_write_after_flush)
{
	sx_preempt_bound(sx_bound(2, 3));
	mock_sink t; uint8_t d[4]; sx_symbolic(d, 4, "data");
	{ async_writer<3> w(t); w.write(d, 2); w.flush(); sx_check(w.ok() && t.n == 2, "flushed"); w.write(d + 2, 2); }
	sx_check(t.n == 4 && sx_memeq(t.data, d, 4), "writing goes on after flushing");
	sx_cover("again");
}
