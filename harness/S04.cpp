// @bounds sources of 0..7 arbitrary bytes, offsets 0..3, limits 0..5 or none, every sequence of 4 (thorough 5) requests of 0..4 bytes, short and failing transfers of the underlying stream; targets likewise; offsets around the 16-byte switch between skipping algorithms
// @outside larger data; 64-bit limits beyond the range of size_t
#include "mock.h"
using namespace std;
using namespace stdex::stream;
SX_CASE(limit_read)
{
	mock_source s(sx_choose(6, "n"), "data"); s.partial = sx_choose(2, "partial"); s.failing = sx_choose(2, "failing");
	size_t lim = sx_choose(7, "limit"); bool none = lim == 6; uint8_t out[24]; size_t got = 0;
	limiter l(s, none ? fsize_max : lim, 0);
	size_t allow = none ? s.n : min(lim, s.n);
	bool end = false;
	for (unsigned k = 0, m = sx_bound(3, 4); k < m && !end; k++) {
		size_t req = sx_choose(5, "req");
		memset(out + got, 0xee, sizeof(out) - got);
		size_t r = l.read(out + got, req);
		sx_check(r <= req && got + r <= allow, "reads stay within the limit");
		sx_check(sx_memeq(out + got, s.data + got, r) && out[got + r] == 0xee, "reads deliver the source's bytes");
		got += r;
		sx_check(s.pos == got, "nothing beyond is consumed");
		sx_check(none ? l.read_limit == fsize_max : l.read_limit == lim - got, "the limit left is exact");
		if (l.state() == state_t::eof) { sx_check(got == allow, "the end is reported at the end"); end = true; if (got == lim) sx_cover("limit reached"); }
		else if (!l.ok()) { sx_check(s.failed, "failure comes from the source"); end = true; }
		else sx_check(r > 0 || !req, "a successful read delivers something");
	}
}
SX_CASE(limit_write)
{
	mock_sink t; t.failing = sx_choose(2, "failing"); t.partial = true;
	size_t lim = sx_choose(7, "limit"); bool none = lim == 6; uint8_t d[24]; size_t put = 0;
	sx_symbolic(d, 24, "data");
	limiter l(t, 0, none ? fsize_max : lim);
	for (unsigned k = 0, m = sx_bound(3, 4); k < m; k++) {
		size_t len = sx_choose(5, "len");
		size_t r = l.write(d + put, len);
		put += r;
		sx_check(r <= len && t.n == put && sx_memeq(t.data, d, put), "the target gets the bytes written, in order");
		sx_check(none || put <= lim, "writes stay within the limit");
		sx_check(none ? l.write_limit == fsize_max : l.write_limit == lim - put, "the limit left is exact");
		if (len && !r) sx_check(l.state() == state_t::fail && (t.failed || put == lim), "exhaustion and failure are reported");
		else sx_check(l.ok() || t.failed, "failure comes from the target");
		sx_check(r == len || t.failed || put == lim, "a write is short only at the limit");
		if (put == lim && lim == 5) sx_cover("limit reached");
		if (t.failed) break;
	}
}
SX_CASE(window_read)
{
	mock_source s(sx_choose(8, "n"), "data"); s.partial = sx_choose(2, "partial");
	size_t off = sx_choose(4, "offset"), lim = sx_choose(6, "limit"); bool none = lim == 5; uint8_t out[24]; size_t got = 0;
	window w(s, off, none ? fsize_max : lim);
	size_t avail = s.n > off ? s.n - off : 0, allow = none ? avail : min(lim, avail);
	bool end = false;
	for (unsigned k = 0, m = sx_bound(4, 5); k < m && !end; k++) {
		size_t req = sx_choose(4, "req");
		memset(out + got, 0xee, sizeof(out) - got);
		size_t r = w.read(out + got, req);
		sx_check(r <= req && got + r <= allow, "reads stay within the window");
		sx_check(sx_memeq(out + got, s.data + off + got, r) && out[got + r] == 0xee, "reads deliver the bytes inside the window");
		got += r;
		if (w.state() == state_t::eof) { sx_check(got == allow, "the end is reported at the end of the window"); end = true; if (off == 2 && got == 4) sx_cover("window read"); }
		else { sx_check(w.ok(), "a window on a working source works"); sx_check(r > 0 || !req, "a successful read delivers something"); sx_check(s.pos == off + got, "exactly the offset and what was delivered is consumed"); }
	}
	// after the end
	if (end) { uint8_t b[2]; sx_check(w.read(b, 2) == 0 && w.state() == state_t::eof, "nothing is delivered after the end of the window"); }
}
SX_CASE(window_write)
{
	mock_sink t; t.failing = sx_choose(2, "failing");
	size_t off = sx_choose(4, "offset"), lim = sx_choose(6, "limit"); bool none = lim == 5; uint8_t d[24]; size_t put = 0;
	sx_symbolic(d, 24, "data");
	window w(t, 0, 0, off, none ? fsize_max : lim);
	for (unsigned k = 0, m = sx_bound(4, 5); k < m; k++) {
		size_t len = sx_choose(5, "len");
		size_t r = w.write(d + put, len);
		put += r;
		sx_check(r <= len, "a write accepts at most what was offered");
		if (t.failed) { sx_check(!w.ok(), "failure of the target is reported"); sx_check(sx_memeq(t.data, d + off, t.n), "the target gets the bytes inside the window only"); return; }
		sx_check(r == len && w.ok(), "a window on a working target accepts everything");
		size_t want = put > off ? put - off : 0; if (!none && want > lim) want = lim;
		sx_check(t.n == want && sx_memeq(t.data, d + off, want), "the target gets exactly the bytes inside the window");
		if (put > off + lim && off && lim) sx_cover("window written over both ends");
	}
}
// skipping a longer offset
SX_CASE(window_far)
{
	static const uint8_t offs[4] = { 15, 16, 17, 20 };
	mock_source s(22, "data"); s.partial = true; s.max_partial = 2;
	size_t off = offs[sx_choose(4, "offset")]; uint8_t out[8];
	window w(s, off, 2);
	size_t r = w.read(out, 1);
	sx_check(r == 1 && out[0] == s.data[off] && w.ok(), "the offset is skipped exactly");
	r = w.read(out, 5);
	sx_check(r == 1 && out[0] == s.data[off + 1] && s.pos == off + 2, "the window ends at its limit");
	sx_cover("far");
}
