// @bounds round trip: 0..9 (thorough 0..16) arbitrary bytes, cut into up to 3 encode calls and 3 decode calls at every position; arbitrary text: 0..6 (thorough 0..8) arbitrary characters, cut at every position; char, wchar_t and char16_t text
// @outside longer messages; more calls per message; std::bad_alloc
#include "common.h"
#include <stdex/base64.hpp>
using namespace std;

static char alphabet(unsigned v) { static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; return t[v]; }
// RFC 4648
static size_t ref_encode(char* out, const uint8_t* d, size_t n)
{
	size_t o = 0;
	for (size_t i = 0; i < n; i += 3) {
		unsigned v = d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0);
		out[o++] = alphabet(v >> 18);
		out[o++] = alphabet(v >> 12 & 63);
		out[o++] = i + 1 < n ? alphabet(v >> 6 & 63) : '=';
		out[o++] = i + 2 < n ? alphabet(v & 63) : '=';
	}
	return o;
}
template <class T>
static void roundtrip(size_t maxn)
{
	uint8_t d[20];
	size_t n = sx_choose(maxn + 1, "n");
	sx_symbolic(d, n, "data");
	size_t c1 = sx_choose(n + 1, "cut1"), c2 = c1 + sx_choose(n - c1 + 1, "cut2");
	stdex::base64_enc enc;
	basic_string<T> s;
	size_t cut[4] = { 0, c1, c2, n };
	for (int k = 0; k < 3; k++) {
		size_t before = s.size(), lim = enc.enc_size(cut[k + 1] - cut[k]);
		enc.encode(s, d + cut[k], cut[k + 1] - cut[k], k == 2);
		sx_check(s.size() - before <= lim, "an encode call stays within enc_size()");
	}
	char ref[32];
	size_t m = ref_encode(ref, d, n);
	sx_check(s.size() == m, "encoded length is the RFC 4648 one");
	bool same = true;
	for (size_t i = 0; i < m; i++) same &= s[i] == (T)ref[i];
	sx_check(same, "encoded text is the RFC 4648 one");
	if (n == 4) sx_cover("padded");
	// encoder is reusable
	basic_string<T> s2;
	enc.encode(s2, d, n, true);
	sx_check(s2 == s, "the encoder starts over after the last block");
	// decode
	size_t e1 = sx_choose(m + 1, "dcut1");
	stdex::base64_dec dec;
	vector<uint8_t> out;
	bool last = true;
	size_t lim = dec.dec_size(e1);
	dec.decode(out, last, s.data(), e1);
	sx_check(out.size() <= lim, "a decode call stays within dec_size()");
	if (e1 < m || !m) {
		sx_check(!last, "the end is not announced before the padding");
		size_t before = out.size(); lim = dec.dec_size(m - e1);
		dec.decode(out, last, s.data() + e1, m - e1);
		sx_check(out.size() - before <= lim, "a decode call stays within dec_size()");
		sx_cover("split decode");
	}
	sx_check(out.size() == n, "decoded length");
	sx_check(sx_memeq(out.data(), d, n), "decoding restores the data");
	sx_check(last == (n % 3 != 0), "the end is announced by padding");
}
SX_CASE(roundtrip_char) { roundtrip<char>(sx_bound(9, 16)); }
SX_CASE(roundtrip_wchar) { roundtrip<wchar_t>(sx_bound(3, 4)); }

// a reference decoder over the whole text
struct values { signed char v[256]; };
static constexpr values make_values()
{
	values r{};
	for (int c = 0; c < 256; c++) r.v[c] = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : c == '=' ? 64 : -1;
	return r;
}
static constexpr values vals = make_values();
template <class T> static int value(T c) { return (size_t)c < 256 ? vals.v[(size_t)c] : -1; }
template <class T>
static void any(size_t maxn)
{
	T t[10];
	size_t n = sx_choose(maxn + 1, "n");
	sx_symbolic(t, n * sizeof(T), "text");
	size_t c = sx_choose(n + 1, "cut");
	bool split = c > 0 && c < n;
	stdex::base64_dec dec;
	vector<uint8_t> out;
	bool last = false;
	size_t lim = dec.dec_size(c);
	dec.decode(out, last, t, c);
	sx_check(out.size() <= lim, "a decode call stays within dec_size()");
	if (!last) {
		size_t before = out.size(); lim = dec.dec_size(n - c);
		dec.decode(out, last, t + c, n - c);
		sx_check(out.size() - before <= lim, "a decode call stays within dec_size()");
	}
	// reference: every call ends at its terminator
	uint8_t ref[16]; size_t m = 0; int q[4], k = 0; bool rl = false, nul = false;
	for (size_t i = 0; i < n && !rl; i++) {
		if (i == c) nul = false;
		if (nul || t[i] == 0) { nul = true; continue; }
		int v = value(t[i]);
		if (v < 0) continue;
		q[k++] = v;
		if (k < 4) continue;
		k = 0;
		ref[m++] = (uint8_t)(q[0] << 2 | q[1] >> 4);
		if (q[2] < 64) { ref[m++] = (uint8_t)(q[1] << 4 | q[2] >> 2); if (q[3] < 64) ref[m++] = (uint8_t)(q[2] << 6 | q[3]); else rl = true; } else rl = true;
	}
	sx_check(out.size() == m && last == rl, "decoder: length and end announcement on arbitrary text");
	sx_check(sx_memeq(out.data(), ref, m), "decoder: bytes on arbitrary text");
	if (rl) sx_cover("decoder stopped at padding");
	if (m == 3) sx_cover("decoder full group");
	if (split) sx_cover("decoder split text");
}
SX_CASE(decode_any_char) { any<char>(sx_bound(6, 8)); }
SX_CASE(decode_any_wchar) { any<wchar_t>(sx_bound(4, 6)); }
SX_CASE(decode_any_char16) { any<char16_t>(sx_bound(4, 6)); }
// clear() forgets a partial group
SX_CASE(clear)
{
	uint8_t d[5]; sx_symbolic(d, 5, "data");
	size_t a = sx_choose(3, "partial"), b = sx_choose(4, "n");
	stdex::base64_enc e; string s, r;
	e.encode(s, d, a, false); e.clear(); s.clear();
	e.encode(s, d + 2, b > 3 ? 3 : b, true);
	stdex::base64_enc f; f.encode(r, d + 2, b > 3 ? 3 : b, true);
	sx_check(s == r, "clear() discards what was encoded before");
	stdex::base64_dec g; vector<uint8_t> v; bool last;
	g.decode(v, last, "QUJD", a + 1 > 3 ? 3 : a + 1); g.clear(); v.clear();
	g.decode(v, last, r.data(), r.size());
	sx_check(v.size() == (b > 3 ? 3 : b) && sx_memeq(v.data(), d + 2, v.size()), "clear() discards what was decoded before");
	sx_cover("clear");
}
