// @bounds sources of 0..7 arbitrary bytes, buffers of 0..3 (thorough 0..4) bytes, any sequence of requests of 0..5 bytes; up to 3 writes of 0..5 bytes; every transfer of the underlying stream full, short or failing (for good or once)
// @assume the underlying stream reports a short write by a non-ok state and the end of data by a read of no bytes, as the library's streams do
// @outside larger buffers
#include "mock.h"
using namespace std;
using namespace stdex::stream;
static void reading(mock_source& s, unsigned maxreq, unsigned reqs)
{
	size_t n = s.n;
	uint8_t out[24]; size_t got = 0;
	buffer b(s, sx_choose(sx_bound(4, 5), "capacity"), 0);
	bool end = false;
	for (unsigned k = 0; k < reqs && !end; k++) {
		size_t req = sx_choose(maxreq + 1, "req");
		memset(out + got, 0xee, sizeof(out) - got);
		size_t r = b.read(out + got, req);
		sx_check(r <= req, "a read delivers at most what was asked for");
		sx_check(got + r <= n && sx_memeq(out + got, s.data + got, r), "a read delivers the source's next bytes");
		bool clean = true;
		for (size_t i = got + r; i < sizeof(out); i++) clean &= out[i] == 0xee;
		sx_check(clean, "nothing is stored past the count");
		got += r;
		sx_check(s.pos >= got && s.pos - got <= 4, "no more than a buffer is read ahead");
		if (b.state() == state_t::eof) { sx_check(got == n, "the end comes after the last byte"); end = true; }
		else if (b.state() == state_t::fail) { sx_check(s.failed, "failure comes from the source"); end = true; }
		else sx_check(r > 0 || !req, "a successful read delivers something");
		if (!s.partial && !s.failing && r < req) sx_check(got == n, "short only at the end");
	}
	if (end && got == n && n == 7) sx_cover("read to the end");
}
SX_CASE(read_full) { mock_source s(sx_choose(8, "n"), "data"); reading(s, 5, sx_bound(4, 5)); }
SX_CASE(read_eof_with_data) { mock_source s(sx_choose(6, "n"), "data"); s.eof_with_data = true; reading(s, 4, sx_bound(4, 5)); }
SX_CASE(read_partial) { mock_source s(sx_choose(6, "n"), "data"); s.partial = true; reading(s, 4, sx_bound(4, 5)); }
SX_CASE(read_failing) { mock_source s(5, "data"); s.partial = s.failing = true; reading(s, 4, sx_bound(4, 5)); if (s.failed) sx_cover("source failed"); }
static void writing(mock_sink& t, unsigned writes, unsigned maxlen)
{
	uint8_t d[24]; size_t acc = 0;
	sx_symbolic(d, sizeof(d), "data");
	bool told = false;
	buffer* b = new buffer(t, 0, sx_choose(sx_bound(4, 5), "capacity"));
	for (unsigned k = 0; k < writes; k++) {
		size_t len = sx_choose(maxlen + 1, "len");
		size_t r = b->write(d + acc, len);
		sx_check(r <= len, "a write accepts at most what was offered");
		acc += r;
		sx_check(b->ok() || t.ever, "failure comes from the target");
		sx_check(r == len || !b->ok(), "a short write says so");
		sx_check(t.n <= acc && acc - t.n <= 4, "what was accepted is delivered or buffered");
		sx_check(sx_memeq(t.data, d, t.n), "the target gets the bytes in order");
		if (!len && b->ok()) sx_check(t.n == acc, "an empty write flushes");
		told |= !b->ok();
	}
	unsigned e = sx_choose(3, "end");
	if (e == 0) {
		b->flush();
		sx_check(!b->ok() || t.n == acc, "after a flush everything is delivered");
		sx_check(!b->ok() || t.flushes, "flush reaches the target");
		sx_check(b->ok() || t.ever, "failure comes from the target");
		sx_cover("flushed");
	} else if (e == 1) {
		b->close();
		sx_check(!b->ok() || t.n == acc, "after a close everything is delivered");
		sx_check(t.closes == 1, "close reaches the target");
		sx_check(b->ok() || t.ever, "failure comes from the target");
		sx_check(!t.late, "nothing is written after closing");
	}
	delete b;
	sx_check(t.failed || t.closes || t.n == acc, "after destruction everything is delivered");
	sx_check(t.n <= acc && sx_memeq(t.data, d, t.n), "the target gets the bytes in order, once");
}
SX_CASE(write_full) { mock_sink t; writing(t, sx_bound(3, 4), 5); }
SX_CASE(write_failing) { mock_sink t; t.failing = t.partial = true; writing(t, sx_bound(3, 4), 4); if (t.failed) sx_cover("target failed"); }
SX_CASE(write_transient) { mock_sink t; t.failing = t.partial = t.transient = true; writing(t, sx_bound(3, 4), 4); if (t.ever && !t.failed) sx_cover("target recovered"); }
// both directions do not disturb each other
struct duplex : mock_source { mock_sink t; using mock_source::mock_source; virtual size_t write(const void* d, size_t n) { size_t r = t.write(d, n); m_state = t.state(); return r; } };
SX_CASE(both)
{
	duplex s(5, "data"); uint8_t d[8], out[8]; size_t got = 0, put = 0;
	sx_symbolic(d, 8, "written");
	{
		buffer b(s, 2, 2);
		for (unsigned k = 0; k < 4; k++) {
			size_t len = 1 + sx_choose(2, "len");
			if (sx_choose(2, "op")) { size_t r = b.read(out + got, len); got += r; sx_check(b.ok() ? r > 0 : got == 5, "the end is reported after the last byte"); } else { sx_check(b.write(d + put, len) == len && b.ok(), "accepted"); put += len; if (got == 5) sx_cover("written past the end"); }
		}
	}
	sx_check(sx_memeq(out, s.data, got) && s.t.n == put && sx_memeq(s.t.data, d, put), "reading and writing are independent");
	sx_cover("both");
}
