// @bounds texts of 0..4 (thorough 0..6) arbitrary bytes, written in any pieces, blocks of 1, 2, 3 and 64 bytes, compressor holding back and decompressor delaying any part; reads of 1, 2, 3 or 8 bytes from sources delivering any part of a block, cut anywhere, followed by other data, or damaged
// @outside the compressed format itself; destroying a writer whose target fails (ends the program)
// @stub deflateInit_, deflate, deflateEnd, inflateInit_, inflate, inflateEnd: an invertible toy code under the documented contract of zlib (consumes input until it is used up or the output is full, may hold output back until finished, Z_BUF_ERROR when nothing can be done, Z_STREAM_END at and after the end)
// @assume zlib (external) inverts its own code; any implementation of its contract would do
#include "mock.h"
#include <stdex/zlib.hpp>
using namespace std;
using namespace stdex;
// the toy code: 'Z', then '+' and the complement for every byte, '.' and the sum at the end
static struct { int inits = 0, ends = 0, iinits = 0, iends = 0; int fail = 0; bool lazy = false; unsigned lazies = 0; } Z;
struct coder { uint8_t q[64]; size_t h = 0, t = 0; uint8_t sum = 0; bool fin = false, stuck = false; };
struct decoder { int st = 0; uint8_t sum = 0; bool have = false; uint8_t b = 0; };
static coder C; static decoder Dd;
extern "C" int deflateInit_(z_streamp s, int, const char*, int) { if (Z.fail) return Z.fail; ++Z.inits; C = coder(); C.q[C.t++] = 'Z'; s->state = (internal_state*)&C; return Z_OK; }
extern "C" int deflateEnd(z_streamp s) { sx_check(s->state == (internal_state*)&C && Z.ends < Z.inits, "a compressor is ended once"); ++Z.ends; s->state = nullptr; return Z_OK; }
extern "C" int deflate(z_streamp s, int flush)
{
	sx_check(s->state == (internal_state*)&C && Z.ends < Z.inits, "a compressor that exists"); sx_check(s->next_out && s->avail_out, "room for output"); sx_check(s->next_in || !s->avail_in, "input");
	if (C.fin && s->avail_in) return Z_BUF_ERROR;
	if (C.stuck && !s->avail_in && flush != Z_FINISH) return Z_BUF_ERROR;
	for (;;) {
		// a code may be held back until there is more
		size_t keep = 0; if (flush != Z_FINISH && !s->avail_in && C.t > C.h && Z.lazies && sx_choose(2, "hold back")) { --Z.lazies; keep = C.t - C.h; }
		while (C.t - C.h > keep && s->avail_out) { *s->next_out++ = C.q[C.h++]; --s->avail_out; ++s->total_out; }
		if (!s->avail_out) { C.stuck = false; return C.fin && C.h == C.t ? Z_STREAM_END : Z_OK; }
		if (s->avail_in) { sx_check(!C.fin, "nothing after the end"); uint8_t b = *s->next_in++; --s->avail_in; ++s->total_in; C.q[C.t++] = '+'; C.q[C.t++] = (uint8_t)~b; C.sum += b; continue; }
		if (flush == Z_FINISH && !C.fin) { C.fin = true; C.q[C.t++] = '.'; C.q[C.t++] = C.sum; continue; }
		C.stuck = true; return C.fin ? Z_STREAM_END : Z_OK;
	}
}
extern "C" int inflateInit_(z_streamp s, const char*, int) { if (Z.fail) return Z.fail; ++Z.iinits; Dd = decoder(); s->state = (internal_state*)&Dd; return Z_OK; }
extern "C" int inflateEnd(z_streamp s) { sx_check(s->state == (internal_state*)&Dd && Z.iends < Z.iinits, "a decompressor is ended once"); ++Z.iends; s->state = nullptr; return Z_OK; }
static unsigned idle_;
extern "C" int inflate(z_streamp s, int)
{
	sx_check(s->state == (internal_state*)&Dd && Z.iends < Z.iinits, "a decompressor that exists"); sx_check(s->next_out || !s->avail_out, "output"); sx_check(s->next_in || !s->avail_in, "input"); bool moved = false;
	for (;;) {
		if (Dd.have) { if (!s->avail_out) break; *s->next_out++ = Dd.b; --s->avail_out; ++s->total_out; Dd.have = false; moved = true; continue; }
		if (Dd.st == 5) { sx_check(moved || ++idle_ < 8, "no endless loop at the end"); return Z_STREAM_END; }
		if (Dd.st == 6) { sx_check(++idle_ < 8, "no endless loop waiting for a dictionary"); return Z_NEED_DICT; }
		if (!s->avail_in) break; // a real one looks at no input it does not need
		uint8_t c = *s->next_in++; --s->avail_in; ++s->total_in; moved = true;
		switch (Dd.st) {
		case 0: if (c == 'D') { Dd.st = 6; break; } if (c != 'Z') return Z_DATA_ERROR; Dd.st = 1; break;
		case 1: if (c == '+') Dd.st = 2; else if (c == '.') Dd.st = 3; else return Z_DATA_ERROR; break;
		case 2: Dd.b = (uint8_t)~c; Dd.sum += Dd.b; Dd.have = true; Dd.st = 1; break;
		case 3: if (c != Dd.sum) return Z_DATA_ERROR; Dd.st = 5; break;
		}
	}
	return moved ? Z_OK : Z_BUF_ERROR;
}
static uInt block() { static const uInt b[] = { 1, 2, 3, 64 }; return b[sx_choose(4, "block")]; }
static void reset() { Z.inits = Z.ends = Z.iinits = Z.iends = 0; Z.fail = 0; idle_ = 0; }
static size_t coded(const uint8_t* d, size_t n, uint8_t* o) { size_t k = 0; uint8_t s = 0; o[k++] = 'Z'; for (size_t i = 0; i < n; ++i) { o[k++] = '+'; o[k++] = (uint8_t)~d[i]; s += d[i]; } o[k++] = '.'; o[k++] = s; return k; }
SX_CASE(writing)
{
	reset(); uint8_t d[8], w[32]; size_t n = sx_choose(sx_bound(5, 7), "n"), at = 0; sx_symbolic(d, n, "data"); mock_sink t; Z.lazies = 2;
	{
		zlib_writer z(t, Z_BEST_COMPRESSION, block());
		while (at < n) { size_t k = 1 + sx_choose((uint32_t)(n - at), "piece"); sx_check(z.write(d + at, k) == k && z.ok(), "accepted"); at += k; if (sx_choose(2, "empty write")) { sx_check(z.write(nullptr, 0) == 0 && z.ok(), "nothing to write"); break; } }
		if (at < n) { sx_check(z.write(d + at, n - at) == n - at, "the rest"); }
	}
	size_t m = coded(d, n, w); sx_check(t.n == m && sx_memeq(t.data, w, m), "everything is compressed, in order and to the end"); sx_check(Z.inits == 1 && Z.ends == 1, "the compressor is released"); sx_cover("written");
}
SX_CASE(writing_fails)
{
	reset(); uint8_t d[4]; sx_symbolic(d, 4, "data"); mock_sink t; t.failing = t.transient = true; Z.lazies = 0;
	{ zlib_writer z(t, Z_BEST_SPEED, block()); bool bad = false; t.partial = sx_choose(2, "partial"); for (unsigned i = 0; i < 2; ++i) { t.ever = false; size_t k = z.write(d + 2 * i, 2); bad |= t.ever; sx_check(t.ever ? !z.ok() && k < 2 : z.ok() && k == 2, "a failing target is reported"); } t.failing = t.failed = false; if (bad) sx_cover("failed"); }
	sx_check(Z.ends == 1, "released");
}
// reads everything there is
static size_t drain(zlib_reader& z, uint8_t* o, size_t cap, mock_source& s)
{
	size_t got = 0; static const size_t L[] = { 1, 2, 3, 8 }; size_t l = L[sx_choose(4, "read")]; memset(o, 0xee, cap);
	for (unsigned i = 0; i < 16; ++i) {
		size_t k = z.read(o + got, l); sx_check(k <= l, "no more than asked for"); got += k; bool clean = true; for (size_t j = got; j < cap; ++j) clean &= o[j] == 0xee; sx_check(clean, "nothing is stored past the count");
		if (!z.ok()) return got; sx_check(k > 0, "a successful read delivers something");
	}
	sx_fail("reading ends"); return 0;
}
SX_CASE(reading)
{
	reset(); uint8_t d[8], o[32]; size_t n = sx_choose(sx_bound(5, 7), "n"); sx_symbolic(d, n, "data"); mock_source s; s.n = coded(d, n, s.data); s.partial = sx_choose(2, "partial"); s.max_partial = 3; uInt b = block(); bool more = sx_choose(2, "data behind"); if (more) { memcpy(s.data + s.n, "+x", 2); s.n += 2; }
	{
		zlib_reader z(s, b); size_t got = drain(z, o, 24, s);
		sx_check(got == n && sx_memeq(o, d, n), "the text is restored"); sx_check(z.state() == stream::state_t::eof, "the end is reported"); sx_check(z.read(o, 2) == 0 && z.state() == stream::state_t::eof, "and again"); sx_check(z.read(nullptr, 0) == 0 && z.ok(), "nothing to read"); sx_cover(more ? "data behind" : "read");
	}
	sx_check(Z.iinits == 1 && Z.iends == 1, "the decompressor is released");
}
SX_CASE(damaged)
{
	// cut, changed or in need of a dictionary
	reset(); uint8_t d[8], o[32]; size_t n = sx_choose(3, "n"); sx_symbolic(d, n, "data"); mock_source s; size_t m = s.n = coded(d, n, s.data); unsigned how = sx_choose(5, "how"); size_t at = sx_choose((uint32_t)m, "at");
	if (how == 0) s.n = at; else if (how == 1) s.data[0] = 'D'; else if (how == 2) s.data[0] = 'z'; else if (how == 3) { s.data[m - 1] ^= 1; } else s.failing = true;
	bool threw = false; size_t got = 0; uInt b = block();
	{ zlib_reader z(s, b); try { got = drain(z, o, 24, s); if (how == 0) { sx_check(z.state() == (at ? stream::state_t::fail : stream::state_t::eof), "an incomplete text does not end well"); sx_cover("cut"); } else if (how == 4) sx_check(s.failed ? z.state() == stream::state_t::fail : z.state() == stream::state_t::eof, "a failing source is reported"); sx_check(got <= n && sx_memeq(o, d, got), "only what there is"); } catch (const runtime_error&) { threw = true; sx_cover("refused"); } }
	sx_check(threw == (how >= 1 && how <= 3), "damage is reported"); sx_check(Z.iends == 1, "released");
}
SX_CASE(starting_fails)
{
	reset(); static const int E[] = { Z_ERRNO, Z_STREAM_ERROR, Z_DATA_ERROR, Z_MEM_ERROR, Z_BUF_ERROR, Z_VERSION_ERROR, -7 }; Z.fail = E[sx_choose(7, "error")]; bool mem = false, sys = false, any = false, rd = sx_choose(2, "reader"); mock_sink t; mock_source s; errno = 5;
	try { if (rd) zlib_reader z(s, 2); else zlib_writer z(t, 1, 2); } catch (const bad_alloc&) { mem = true; } catch (const system_error&) { sys = true; } catch (const runtime_error&) { any = true; }
	sx_check(mem == (Z.fail == Z_MEM_ERROR) && sys == (Z.fail == Z_ERRNO) && mem + sys + any == 1, "reported"); sx_check(!Z.ends && !Z.iends && !t.n, "nothing begun, nothing ended"); sx_cover("refused");
}
SX_CASE(round_trip)
{
	reset(); uint8_t d[8], o[32]; size_t n = sx_choose(sx_bound(5, 7), "n"); sx_symbolic(d, n, "data"); mock_sink t; Z.lazies = 1;
	{ zlib_writer z(t, 1, block()); size_t k = sx_choose((uint32_t)n + 1, "first"); if (k) z.write(d, k); if (k < n) z.write(d + k, n - k); }
	mock_source s; s.n = t.n; memcpy(s.data, t.data, t.n); zlib_reader z(s, block()); size_t got = drain(z, o, 24, s); sx_check(got == n && sx_memeq(o, d, n) && z.state() == stream::state_t::eof, "the same text"); sx_cover("round trip");
}
