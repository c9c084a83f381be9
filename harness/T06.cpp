// @bounds every 32-bit code point value; every UTF-16 text of 0..4 (thorough 0..5) units, terminated or ending at the limit, into destinations of 0..6 units; comparison against every UTF-32 text of 0..3 (thorough 0..4) units; glyph lengths of every text of up to 4 (thorough 5) units
// @outside longer texts; nullptr text with a non-zero length
#include "text.h"
#include <stdex/string.hpp>
using namespace stdex;
static bool hi(char16_t c) { return (c & 0xfc00) == 0xd800; }
static bool lo(char16_t c) { return (c & 0xfc00) == 0xdc00; }
static bool comb(uint32_t c) { return ((c >= 0x300) & (c < 0x370)) | ((c >= 0x1dc0) & (c < 0x1e00)) | ((c >= 0x20d0) & (c < 0x2100)) | ((c >= 0xfe20) & (c < 0xfe30)); }
static size_t decode(const char16_t* s, size_t n, wchar_t* d)
{
	size_t j = 0;
	for (size_t i = 0; i < n; ++i, ++j) {
		if (i + 1 < n && hi(s[i]) && lo(s[i + 1])) { d[j] = (wchar_t)(0x10000 + ((uint32_t)(s[i] & 0x3ff) << 10 | (s[i + 1] & 0x3ff))); ++i; }
		else d[j] = (wchar_t)s[i];
	}
	return j;
}
SX_CASE(pair)
{
	uint32_t c = sx_u32("code point"); sx_assume(c >= 0x10000 && c <= 0x10ffff);
	utf16_t p[2]; ucs4_to_surrogate_pair(p, (wchar_t)c);
	sx_check(hi(p[0]) && lo(p[1]) && is_surrogate_pair(p), "a surrogate pair");
	sx_check((uint32_t)surrogate_pair_to_ucs4(p) == c, "code point survives");
	char16_t u = (char16_t)sx_u16("unit");
	sx_check(is_high_surrogate(u) == hi(u) && is_low_surrogate(u) == lo(u), "surrogate classes");
	uint32_t x = sx_u32("any"); sx_check(iscombining((wchar_t)x) == comb(x), "combining marks");
	sx_cover("pair");
}
SX_CASE(copy)
{
	text<char16_t> s(sx_bound(4, 5), "n"); wchar_t want[8]; 
	if (sx_choose(2, "unlimited")) {
		sx_assume(s.term); wchar_t* d = new wchar_t[s.n + 1];
		size_t r = stdex::strcpy(d, s.p);
		size_t m = decode(s.at, s.n, want);
		sx_check(r == m && d[m] == 0 && sx_memeq(d, want, m * sizeof(wchar_t)), "strcpy to UTF-32"); delete[] d;
		sx_cover(m < s.n ? "strcpy of a pair" : "strcpy without pairs");
	} else {
		size_t k = sx_choose(sx_bound(6, 7), "room"); wchar_t* d = new wchar_t[k];
		size_t r = stdex::strncpy(d, k, s.p, s.limit);
		size_t m = decode(s.at, s.n, want), f = m < k ? m : k;
		sx_check(r == f && sx_memeq(d, want, f * sizeof(wchar_t)) && (f == k || d[f] == 0), "strncpy to UTF-32"); delete[] d;
		sx_cover(m < k ? "fits" : m == k ? "fits without terminator" : "does not fit");
	}
}
SX_CASE(compare)
{
	text<wchar_t> a(sx_bound(3, 4), "n32"); text<char16_t> b(sx_bound(4, 4), "n16");
	for (size_t i = 0; i < a.n; ++i) sx_assume((uint32_t)a.at[i] < 0x110000);
	int r = stdex::strncmp(a.p, a.limit, b.p, b.limit);
	wchar_t w[8]; size_t m = decode(b.at, b.n, w);
	int want = 0;
	for (size_t i = 0; i < a.n || i < m; ++i) { int d = i >= a.n ? -1 : i >= m ? 1 : (int)(a.at[i] > w[i]) - (int)(a.at[i] < w[i]); want = want ? want : d; }
	sx_check(r == want, "UTF-32 compared with UTF-16");
	sx_cover(r == 0 ? (m < b.n ? "equal with a pair" : "equal") : "different");
}
SX_CASE(compare_array)
{
	wchar_t a[2]; char16_t b[3]; sx_symbolic(b, 6, "utf16"); for (auto c : b) sx_assume(c != 0);
	wchar_t w[3]; size_t m = decode(b, 3, w); sx_assume(m == 2); a[0] = w[0]; a[1] = w[1];
	sx_check(stdex::strncmp(a, b) == 0, "equal to its conversion");
	wchar_t d[4]; sx_check(stdex::strncpy(d, b) == 2 && d[0] == w[0] && d[1] == w[1] && d[2] == 0, "array copy");
	sx_cover("compare array");
}
template <class T> static void glyphs()
{
	text<T> s(sx_bound(4, 5), "n", false, 0);
	size_t n = s.n;
	// from the front: a base character and every combining mark after it
	size_t base = sizeof(T) == 2 && n >= 2 && hi((char16_t)s.at[0]) && lo((char16_t)s.at[1]) ? 2 : 1, f = 0;
	if (n) for (f = base; f < n && comb((uint32_t)s.at[f]); ++f);
	sx_check(glyphlen(s.p, n) == f, "glyph length from the front");
	if (n) {
		size_t i = n; while (i && comb((uint32_t)s.at[i - 1])) --i; // i - 1: the base, if any
		size_t r;
		if (!i) r = n;
		else { --i; if (sizeof(T) == 2 && i && lo((char16_t)s.at[i]) && hi((char16_t)s.at[i - 1])) --i; r = n - i; }
		sx_check(glyphrlen(s.p, n) == r, "glyph length from the back");
		if (r > 1) sx_cover("several units");
	}
}
SX_CASE(glyph_16) { glyphs<char16_t>(); }
SX_CASE(glyph_32) { glyphs<wchar_t>(); }
SX_CASE(line_break)
{
	text<char> s(3, "n");
	size_t want = s.n && (s.at[0] == '\n' || s.at[0] == '\r') ? (s.n > 1 && (s.at[1] == '\n' || s.at[1] == '\r') && s.at[0] != s.at[1] ? 2 : 1) : 0;
	sx_check(islbreak(s.p, s.n) == want, "length of a line break");
	if (want == 2) sx_cover("line break");
}
