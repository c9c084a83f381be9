// @bounds 0..6 (thorough 0..10) arbitrary bytes; arbitrary text of 0..5 (thorough 0..7) characters, cut into two calls at every position; char, wchar_t
// @outside longer data; more than two decode calls per text; std::bad_alloc
#include "common.h"
#include <stdex/hex.hpp>
using namespace std;
template <class T>
static void roundtrip(size_t maxn)
{
	uint8_t d[16];
	size_t n = sx_choose(maxn + 1, "n"), c = sx_choose(n + 1, "cut");
	sx_symbolic(d, n, "data");
	stdex::hex_enc enc;
	basic_string<T> s;
	size_t lim = enc.enc_size(c);
	enc.encode(s, d, c);
	sx_check(s.size() <= lim, "encode stays within enc_size()");
	enc.encode(s, d + c, n - c);
	sx_check(s.size() == 2 * n, "two digits per byte");
	bool ok = true;
	for (size_t i = 0; i < n; i++) {
		unsigned h = d[i] >> 4, l = d[i] & 15;
		ok &= s[2 * i] == (T)(h < 10 ? '0' + h : 'A' + (h - 10));
		ok &= s[2 * i + 1] == (T)(l < 10 ? '0' + l : 'A' + (l - 10));
	}
	sx_check(ok, "digits, most significant first");
	// decode in arbitrary letter case, cut anywhere
	uint8_t lower[32]; sx_symbolic(lower, 2 * n, "lower-case");
	for (size_t i = 0; i < 2 * n; i++) s[i] = (T)(s[i] | (((lower[i] & 1) & (s[i] > '9')) << 5));
	size_t m = sx_choose(2 * n + 1, "dcut");
	stdex::hex_dec dec; vector<uint8_t> out; bool last = false;
	lim = dec.dec_size(m);
	dec.decode(out, last, s.data(), m);
	sx_check(out.size() <= lim, "decode stays within dec_size()");
	sx_check(m == 0 || last == (m % 2 == 0), "completeness of the first block");
	if (m < 2 * n) {
		size_t before = out.size(); lim = dec.dec_size(2 * n - m);
		dec.decode(out, last, s.data() + m, 2 * n - m);
		sx_check(out.size() - before <= lim, "decode stays within dec_size()");
		sx_cover("split decode");
	}
	sx_check(n == 0 || last, "completeness of the last block");
	sx_check(out.size() == n && sx_memeq(out.data(), d, n), "decoding restores the data");
}
SX_CASE(roundtrip_char) { roundtrip<char>(sx_bound(3, 4)); }
SX_CASE(roundtrip_wchar) { roundtrip<wchar_t>(sx_bound(2, 3)); }
template <class T>
static void any(size_t maxn)
{
	T t[10];
	size_t n = sx_choose(maxn + 1, "n"), c = sx_choose(n + 1, "cut");
	sx_symbolic(t, n * sizeof(T), "text");
	stdex::hex_dec dec; vector<uint8_t> out; bool last = false, l2 = false;
	size_t lim = dec.dec_size(c);
	dec.decode(out, last, t, c);
	sx_check(out.size() <= lim, "decode stays within dec_size()");
	size_t before = out.size(); lim = dec.dec_size(n - c);
	dec.decode(out, l2, t + c, n - c);
	sx_check(out.size() - before <= lim, "decode stays within dec_size()");
	uint8_t ref[8]; size_t m = 0; unsigned h = 0; bool half = false, half1 = false, nul = false, ends = false;
	for (size_t i = 0; i <= n; i++) {
		if (i == c) { half1 = half; nul = false; ends = false; }
		if (i == n) break;
		if (nul || !t[i]) { nul = true; continue; }
		int v = t[i] >= '0' && t[i] <= '9' ? t[i] - '0' : t[i] >= 'A' && t[i] <= 'F' ? t[i] - 'A' + 10 : t[i] >= 'a' && t[i] <= 'f' ? t[i] - 'a' + 10 : -1;
		if (v < 0) { ends = false; continue; }
		if (half) { ref[m++] = (uint8_t)(h << 4 | v); half = false; ends = true; } else { h = v; half = true; ends = false; }
	}
	sx_check(out.size() == m, "decoder: length on arbitrary text");
	sx_check(sx_memeq(out.data(), ref, m), "decoder: bytes on arbitrary text");
	sx_check(!(last && half1) && !(l2 && half), "never complete with half a byte pending");
	sx_check(!ends || l2, "complete when the text ends with the second digit of a byte");
	if (half) sx_cover("half a byte pending");
	if (m == 2) sx_cover("two bytes");
	dec.clear();
	out.clear();
	dec.decode(out, last, "4a", 2);
	sx_check(out.size() == 1 && out[0] == 0x4a && last, "clear() discards a pending digit");
}
SX_CASE(any_char) { any<char>(sx_bound(5, 6)); }
SX_CASE(any_wchar) { any<wchar_t>(sx_bound(3, 4)); }
