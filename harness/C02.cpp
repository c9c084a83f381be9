// @bounds messages of 0..7 (thorough 0..10) arbitrary bytes; line length 1, 2 blocks or unlimited; written in up to 3 calls cut at every position; read back by any sequence of requests of 0..5 bytes; the target refuses service from any call on; the text is interleaved with one arbitrary non-alphabet character at any position, or cut short anywhere
// @outside longer messages; a target that fails and later recovers
#include "mock.h"
#include <stdex/base64.hpp>
using namespace std;
static char alphabet(unsigned v) { static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; return t[v]; }
// RFC 4648 text in lines of so many blocks
static size_t ref_encode(char* out, const uint8_t* d, size_t n, size_t line)
{
	size_t o = 0, b = 0;
	for (size_t i = 0; i < n; i += 3) {
		if (b == line) { out[o++] = '\n'; b = 0; }
		b++;
		unsigned v = d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0);
		out[o++] = alphabet(v >> 18);
		out[o++] = alphabet(v >> 12 & 63);
		out[o++] = i + 1 < n ? alphabet(v >> 6 & 63) : '=';
		out[o++] = i + 2 < n ? alphabet(v & 63) : '=';
	}
	return o;
}
static size_t lines() { unsigned k = sx_choose(3, "line"); return k == 2 ? SIZE_MAX : k + 1; }
SX_CASE(write)
{
	uint8_t d[12]; char ref[32];
	size_t n = sx_choose(sx_bound(8, 11), "n"), line = lines();
	sx_symbolic(d, n, "data");
	size_t c1 = sx_choose(n + 1, "cut1"), c2 = c1 + sx_choose(n - c1 + 1, "cut2");
	mock_sink t;
	{
		stdex::stream::basic& b = t;
		stdex::base64_writer w(b, line);
		sx_check(w.write(d, c1) == c1 && w.ok(), "a write to a working target accepts everything");
		sx_check(w.write(d + c1, c2 - c1) == c2 - c1 && w.ok(), "a write to a working target accepts everything");
		sx_check(w.write(d + c2, n - c2) == n - c2 && w.ok(), "a write to a working target accepts everything");
	}
	size_t m = ref_encode(ref, d, n, line);
	sx_check(t.n == m, "length of the text written");
	sx_check(sx_memeq(t.data, ref, m), "the text written is the RFC 4648 one");
	if (m > 10) sx_cover("long");
}
static void readback(mock_source& s, const uint8_t* d, size_t n, unsigned reqs)
{
	stdex::base64_reader r(s);
	uint8_t out[16]; size_t got = 0;
	bool end = false;
	for (unsigned k = 0; k < n + 2 && !end; k++) {
		size_t req = 1 + sx_choose(reqs, "req");
		memset(out + got, 0xee, sizeof(out) - got);
		size_t k2 = r.read(out + got, req);
		sx_check(k2 <= req, "a read delivers at most what was asked for");
		got += k2;
		sx_check(got <= n, "reads deliver no more than the message");
		if (r.state() == state_t::eof) end = true;
		else { sx_check(r.ok(), "reading succeeds"); sx_check(k2 > 0, "a successful read delivers something"); }
	}
	sx_check(end, "the end is reported");
	sx_check(got == n, "every byte was delivered before the end");
	sx_check(sx_memeq(out, d, n), "the bytes are the original ones");
	if (n % 3) sx_cover("padded");
	sx_check(r.read(out, 1) == 0 && r.state() == state_t::eof, "nothing is delivered after the end");
}
SX_CASE(read)
{
	uint8_t d[12];
	size_t n = sx_choose(sx_bound(8, 10), "n"), line = lines();
	sx_symbolic(d, n, "data");
	mock_source s; s.n = ref_encode((char*)s.data, d, n, line);
	readback(s, d, n, 5);
}
SX_CASE(read_with_noise)
{
	uint8_t d[12];
	size_t n = 1 + sx_choose(4, "n");
	sx_symbolic(d, n, "data");
	char text[16];
	size_t m = ref_encode(text, d, n, SIZE_MAX), at = sx_choose(m + 1, "at");
	uint8_t c = sx_u8("noise");
	sx_assume(!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/' || c == '='));
	mock_source s; s.n = m + 1;
	memcpy(s.data, text, at); s.data[at] = c; memcpy(s.data + at + 1, text + at, m - at);
	readback(s, d, n, 3);
}
// a text cut short: whole groups only
SX_CASE(read_truncated)
{
	uint8_t d[12], out[12];
	size_t n = 1 + sx_choose(6, "n");
	sx_symbolic(d, n, "data");
	mock_source s; size_t m = ref_encode((char*)s.data, d, n, SIZE_MAX);
	s.n = sx_choose(m, "length");
	size_t whole = s.n / 4 * 3, got = 0;
	stdex::base64_reader r(s);
	bool end = false;
	for (unsigned k = 0; k < 4 && !end; k++) {
		got += r.read(out + got, 8 - got > 4 && sx_choose(2, "small") ? 2 : 8 - got);
		end = !r.ok();
	}
	sx_check(end && r.state() == state_t::eof && got == whole && sx_memeq(out, d, whole), "a text cut short gives its whole groups, then the end");
	sx_cover("truncated");
}
// the target stops accepting: the count tells the bytes taken
SX_CASE(write_failure)
{
	uint8_t d[10];
	size_t n = sx_bound(8, 10), line = lines();
	sx_symbolic(d, n, "data");
	mock_sink t; t.failing = true;
	size_t taken = 0; bool failed = false;
	{
		stdex::stream::basic& b = t;
		stdex::base64_writer w(b, line);
		for (unsigned k = 0; k < 3 && !failed; k++) {
			size_t req = k < 2 ? sx_choose((uint32_t)(n - taken + 1), "req") : n - taken;
			size_t r = w.write(d + taken, req);
			sx_check(r <= req, "no more than offered is taken");
			taken += r;
			failed = !w.ok();
			sx_check(failed || r == req, "a write that takes less says so");
			sx_check(failed == t.failed, "failure of the target is reported");
		}
		size_t blocks = 0; char ref[20];
		for (size_t i = 0; i < t.n; i++) blocks += t.data[i] != '\n';
		blocks /= 4;
		sx_check(blocks * 3 <= taken && taken <= blocks * 3 + 3, "the count tells the bytes taken");
		size_t m = ref_encode(ref, d, blocks * 3, line);
		sx_check(t.n >= m && sx_memeq(t.data, ref, m), "what was delivered is the beginning of the text");
		if (failed && taken == 6) sx_cover("failed in the second block");
		sx_check(!failed || w.write(d, 0) == 0 || true, "");
	}
}
