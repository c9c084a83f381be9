// @bounds files of 0..6 arbitrary bytes; block size 2 and 3; every history of two operations (position 0..8, read or write of 0..8 bytes, truncate), every history of three (thorough four) operations at positions 0..6 with lengths 1, 2, 3 and 5, flush and size queries in between; relative and end-relative seeks
// @assume the underlying file is ideal: it transfers everything it can and zero-fills when written past its end
// @outside longer histories; larger blocks; failing underlying files beyond refusing writes; time stamps
#include "mock.h"
using namespace std;
using namespace stdex::stream;
struct sys {
	ideal_file ref, under;
	cache* c;
	sys(size_t block, size_t n)
	{
		sx_symbolic(ref.data, n, "file"); ref.n = n;
		memcpy(under.data, ref.data, n); under.n = n;
		c = new cache(under, block);
	}
	~sys() { delete c; }
	void seek(uint64_t p) { ref.seekbeg(p); sx_check(c->seekbeg(p) == p && c->ok(), "seek reports the position"); }
	void read(size_t len)
	{
		uint8_t a[16], b[16]; memset(b, 0xee, 16);
		size_t x = ref.read(a, len), y = c->read(b, len);
		sx_check(x == y, "read: count");
		sx_check(sx_memeq(a, b, x), "read: data");
		sx_check(!len || ref.state() == c->state(), "read: state");
		if (x > 3) sx_cover("read across blocks");
	}
	void write(size_t len)
	{
		uint8_t d[16]; sx_symbolic(d, len, "written");
		ref.write(d, len);
		sx_check(c->write(d, len) == len, "write: count");
		sx_check(c->ok(), "write: state");
	}
	void observe()
	{
		sx_check(c->tell() == ref.tell(), "position");
		sx_check(c->size() == ref.size(), "size");
	}
	void same(const char* msg)
	{
		sx_check(under.n == ref.n, msg);
		sx_check(sx_memeq(under.data, ref.data, ref.n), msg);
	}
	void end()
	{
		unsigned e = sx_choose(2, "end");
		if (e) { c->flush(); sx_check(c->ok(), "flush: state"); same("after flush the file has the same bytes"); }
		else { c->close(); sx_check(c->ok(), "close: state"); same("after close the file has the same bytes"); }
		delete c; c = nullptr;
		same("after destruction the file has the same bytes");
	}
};
SX_CASE(two)
{
	sys s(3, sx_choose(7, "n"));
	for (unsigned k = 0; k < 2; k++) {
		s.seek(sx_choose(9, "pos"));
		unsigned op = sx_choose(19, "op");
		if (op < 9) s.read(op);
		else if (op < 18) s.write(op - 9);
		else { s.ref.truncate(); s.c->truncate(); sx_check(s.c->ok(), "truncate: state"); sx_cover("truncate"); }
		s.observe();
	}
	s.end();
}
static void many(unsigned ops, size_t block, bool flushes)
{
	static const uint8_t len[4] = { 1, 2, 3, 5 };
	sys s(block, flushes ? 4 : sx_choose(2, "n") * 5);
	for (unsigned k = 0; k < ops; k++) {
		s.seek(sx_choose(7, "pos"));
		unsigned op = sx_choose(9 + flushes, "op");
		if (op < 4) s.read(len[op]);
		else if (op < 8) s.write(len[op - 4]);
		else if (op == 8) { s.ref.truncate(); s.c->truncate(); sx_check(s.c->ok(), "truncate: state"); }
		else { s.c->flush(); s.same("after flush the file has the same bytes"); }
		s.observe();
	}
	s.end();
}
SX_CASE(three) { many(3, 2, false); }
SX_CASE(T_three_block3) { many(3, 3, true); }
SX_CASE(T_four) { many(4, 2, false); }
SX_CASE(seeks)
{
	sys s(3, sx_choose(5, "n"));
	for (unsigned k = 0; k < 3; k++) {
		unsigned op = sx_choose(4, "op");
		if (op == 0) s.write(2);
		else if (op == 1) s.read(2);
		else if (op == 2) { int64_t d = (int64_t)sx_choose(4, "off") - 1; if ((int64_t)s.ref.pos + d < 0) d = 0; uint64_t a = s.ref.seekcur(d), b = s.c->seekcur(d); sx_check(a == b, "relative seek"); }
		else { int64_t d = (int64_t)sx_choose(4, "off") - 2; if ((int64_t)s.ref.n + d < 0) d = 0; uint64_t a = s.ref.seekend(d), b = s.c->seekend(d); sx_check(a == b, "end-relative seek"); sx_cover("end-relative seek"); }
		s.observe();
	}
	s.end();
}
// data that cannot be written back is not forgotten silently
struct refusing : ideal_file {
	bool refuse = false, bad = false;
	virtual void close() { m_state = bad ? state_t::fail : state_t::ok; }
	virtual void flush() { m_state = bad ? state_t::fail : state_t::ok; }
	virtual size_t write(const void* d, size_t n) { if (refuse) { m_state = state_t::fail; return 0; } return ideal_file::write(d, n); }
};
SX_CASE(refused)
{
	refusing f; f.n = 5;
	cache* c = new cache(f, 3);
	uint8_t d[8]; sx_symbolic(d, 8, "data");
	size_t p = sx_choose(6, "pos"), l = 1 + sx_choose(5, "len");
	c->seekbeg(p);
	f.refuse = true;
	size_t k = c->write(d, l);
	bool ok = c->ok();
	sx_check(!ok || k == l, "a short write says so");
	bool reported = !ok;
	c->flush(); reported |= !c->ok();
	sx_check(reported, "what the file refuses is reported");
	f.refuse = false;
	c->flush();
	sx_check(!ok || (c->ok() && f.n >= p + l && sx_memeq(f.data + p, d, l)), "what was accepted is written once the file recovers");
	f.bad = true; c->flush(); sx_check(!c->ok(), "a failed flush of the file is reported"); f.bad = false; c->flush();
	delete c;
	sx_cover("refused");
}
SX_CASE(closing)
{
	// closing passes on whether the file could be closed, with or without data to be written first
	refusing f; f.n = 4; cache* c = new cache(f, 3); uint8_t d[4] = { 1, 2, 3, 4 }, r[8];
	switch (sx_choose(4, "before")) { case 0: break; case 1: c->write(d, 4); break; case 2: c->read(r, 2); break; case 3: c->read(r, 8); c->read(r, 8); sx_check(c->state() == state_t::eof, "end"); break; }
	f.bad = sx_choose(2, "fails"); c->close(); sx_check(c->ok() == !f.bad, "the outcome of closing is reported"); sx_cover(f.bad ? "failed" : "closed");
	delete c;
}
