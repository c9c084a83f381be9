// @bounds files of 0..2 leading lines (blank or comment, ended by LF or CRLF) and one signature line of 72..76 arbitrary bytes, followed by more lines or the end of the file; the signature line cut at every length and any one of its characters changed to anything; any file of 0..7 (thorough 9) arbitrary bytes; sources that fail at any call near the end; the comment and line-end recognisers on every text of up to 20 units near the valid form, and 0..3 arbitrary units
// @outside strictness about '=' inside a group (base64, C01); more leading lines; the transfer sizes of the source (S11); public-key and secret-key files (the library reads signature files only)
#include "common.h"
#include <stdex/minisign.hpp>
using namespace std;
using stdex::stream::state_t;
static char alphabet(unsigned v) { static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; return t[v]; }
static size_t encode(char* out, const uint8_t* d, size_t n)
{
	size_t o = 0;
	for (size_t i = 0; i < n; i += 3) {
		unsigned v = d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0);
		out[o++] = alphabet(v >> 18); out[o++] = alphabet(v >> 12 & 63);
		out[o++] = i + 1 < n ? alphabet(v >> 6 & 63) : '='; out[o++] = i + 2 < n ? alphabet(v & 63) : '=';
	}
	return o;
}
struct file : stdex::stream::basic {
	char data[256]; size_t n = 0, pos = 0, fails_at = SIZE_MAX; unsigned over = 0;
	void put(const char* s, size_t l) { memcpy(data + n, s, l); n += l; }
	void put(const char* s) { put(s, strlen(s)); }
	virtual size_t read(void* d, size_t l)
	{
		if (pos >= fails_at) { m_state = state_t::fail; return 0; }
		size_t k = min(l, n - pos); memcpy(d, data + pos, k); pos += k; if (!k && l) sx_check(++over < 3, "stops at the end");
		m_state = k || !l ? state_t::ok : state_t::eof; return k;
	}
};
struct result { bool ok = false; uint8_t alg = 0xaa, id[8], sig[64]; result() { memset(id, 0xaa, 8); memset(sig, 0xaa, 64); } };
static result parse(file& f)
{
	result r; try { stdex::minisign::parse_minisig(f, r.alg, r.id, r.sig); r.ok = true; } catch (const std::exception&) {}
	return r;
}
static void expect(const result& r, const uint8_t* d) { sx_check(r.alg == d[1] && sx_memeq(r.id, d + 2, 8) && sx_memeq(r.sig, d + 10, 64), "algorithm, key and signature are those encoded"); }
static void leading(file& f)
{
	unsigned k = sx_choose(3, "leading lines");
	for (unsigned i = 0; i < k; ++i) {
		switch (sx_choose(3, "line")) {
		case 0: f.put("untrusted comment:"); break;
		case 1: { f.put("untrusted comment: "); char c[2]; sx_symbolic(c, 2, "comment"); for (char x : c) { sx_assume(x != '\n' && x != '\r'); f.put(&x, 1); } break; }
		}
		f.put(sx_choose(2, "line end") ? "\r\n" : "\n");
	}
	if (k) sx_cover("leading lines");
}
SX_CASE(valid)
{
	uint8_t d[76]; size_t n = 72 + sx_choose(5, "bytes"); sx_symbolic(d, n, "signature"); file f; leading(f);
	char t[108]; size_t m = encode(t, d, n); f.put(t, m);
	unsigned tail = sx_choose(4, "tail"); static const char* const T[] = { "\n", "\r\n", "\ntrusted comment: x\nQUJD\n", "" }; f.put(T[tail]);
	result r = parse(f); bool good = n >= 74 && d[0] == 'E';
	if (tail == 3) { if (r.ok) { sx_check(good, "only what is complete"); expect(r, d); } return; }
	sx_check(r.ok == good, "accepted when it is complete and bears the mark"); if (r.ok) { expect(r, d); sx_cover("accepted"); } else sx_cover("rejected");
}
SX_CASE(truncated)
{
	uint8_t d[74]; d[0] = 'E'; sx_symbolic(d + 1, 73, "signature"); file f; f.put("untrusted comment: x\n");
	char t[108]; size_t m = encode(t, d, 74), cut = sx_choose((uint32_t)m, "cut"); f.put(t, cut); f.put("\n"); if (sx_choose(2, "more")) { f.put(t, m); f.put("\n"); if (cut) sx_cover("no second try"); }
	result r = parse(f); sx_check(r.ok == (cut == 0 && f.n > 100), "truncated"); if (r.ok) expect(r, d);
}
SX_CASE(damaged)
{
	uint8_t d[74]; d[0] = 'E'; sx_symbolic(d + 1, 73, "signature"); file f; char t[108]; size_t m = encode(t, d, 74);
	size_t at = sx_choose((uint32_t)m, "at"); char was = t[at], c = (char)sx_u8("change"); sx_assume(c != was && c != '\n' && c != '\r'); t[at] = c; f.put(t, m); f.put("\n");
	result r = parse(f); bool letter = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/' || (c == '=' && at % 4 < 2);
	if (!letter || at < 1) sx_check(!r.ok || at == 99, "damaged");
	if (r.ok && at > 1 && at < 98) {
		size_t b = at / 4 * 3; bool rest = true; for (size_t i = 1; i < 74; ++i) if (i < b || i >= b + 3) rest &= (i == 1 ? r.alg : i < 10 ? r.id[i - 2] : r.sig[i - 10]) == d[i];
		sx_check(rest, "the rest is what it was"); sx_cover("another signature");
	}
	if (!r.ok) sx_cover("rejected");
}
SX_CASE(arbitrary)
{
	file f; f.n = sx_choose(sx_bound(7, 9) + 1, "n"); sx_symbolic(f.data, f.n, "file"); sx_check(!parse(f).ok, "too short"); sx_cover("short");
}
SX_CASE(failing)
{
	uint8_t d[74]; d[0] = 'E'; sx_symbolic(d + 1, 73, "signature"); file f; f.put("\nuntrusted comment: \n"); char t[108]; size_t m = encode(t, d, 74); f.put(t, m); f.put("\n\n");
	f.fails_at = sx_choose((uint32_t)f.n + 1, "fails at"); result r = parse(f); sx_check(r.ok == (f.fails_at >= f.n - 1), "a failing source"); if (r.ok) expect(r, d); sx_cover(r.ok ? "read" : "failed");
}
SX_CASE(recognisers)
{
	static const char C[] = "untrusted comment:"; char t[24]; size_t n = sx_choose(21, "n"); memcpy(t, C, 18); sx_symbolic(t + 18, 2, "rest"); if (n) { t[sx_choose((uint32_t)n, "at")] = (char)sx_u8("change"); }
	char* p = (char*)malloc(n + 1); size_t start = sx_choose(2, "start"); p[0] = 0; if (start + n <= n + 1) memcpy(p + start, t, n);
	stdex::minisign::untrusted_comment u; bool is = n >= 18; for (size_t i = 0; i < 18 && is; ++i) is &= t[i] == C[i];
	bool got = u.match(p, start, start + n); sx_check(got == is && (got ? u.interval.start == start && u.interval.end == start + 18 : !u.interval), "comment");
	sx_cover(got ? "comment" : "no comment"); free(p);
}
SX_CASE(line_ends)
{
	size_t n = sx_choose(4, "n"), start = sx_choose((uint32_t)n + 1, "start"); char* p = (char*)malloc(n ? n : 1); sx_symbolic(p, n, "text");
	stdex::minisign::line_break b; bool got = b.match(p, start, n); size_t l = start < n && p[start] == '\n' ? 1 : start + 1 < n && p[start] == '\r' && p[start + 1] == '\n' ? 2 : 0;
	sx_check(got == (l != 0) && (got ? b.interval.start == start && b.interval.end == start + l : !b.interval), "line end"); if (got) sx_cover(l == 1 ? "LF" : "CRLF"); free(p);
}
