// @bounds printing: all 2^128 UUIDs at once, narrow and wide. Parsing: each of the eight 16-bit parts in turn with every value (the others fixed, with zeros, limits and letters), upper and lower case, narrow and wide; the valid form with any one character replaced by any other, cut at any place (terminated or by the limit, memory ends there), with up to 2 units before, between or after
// @outside several damaged places at once; parts shorter than their 4, 8 or 12 digits or with a sign (read as numbers; an empty part is covered)
#include "text.h"
#include <cwchar>
#include <stdex/uuid.hpp>
using namespace stdex;
static const unsigned char base_[16] = { 0xef, 0xcd, 0xab, 0x00, 0xff, 0xff, 0x00, 0x00, 0x90, 0x0a, 0xfe, 0xdc, 0x00, 0x01, 0xff, 0x09 };
static const unsigned order_[16] = { 3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15 };
static unsigned hx(unsigned v) { return v < 10 ? '0' + v : 'A' + v - 10; }
template <class T> static size_t form(T* d, const unsigned char* id, bool lower) // 38 units
{
	size_t n = 0; d[n++] = '{';
	for (unsigned i = 0; i < 16; ++i) {
		if (i == 4 || i == 6 || i == 8 || i == 10) d[n++] = '-';
		unsigned h = hx(id[order_[i]] >> 4), l = hx(id[order_[i]] & 15);
		d[n++] = T(h | (lower && h >= 'A' ? 0x20 : 0)); d[n++] = T(l | (lower && l >= 'A' ? 0x20 : 0));
	}
	d[n++] = '}';
	return n;
}
template <class T> static void print()
{
	uuid_t id; sx_symbolic(id, 16, "uuid");
	T* s = new T[uuid_str_max]; uuidtostr(s, id);
	T w[40]; size_t n = form(w, id, false); bool ok = true;
	for (size_t i = 0; i < n; ++i) ok &= s[i] == w[i];
	sx_check(ok, "digits printed"); sx_check(s[n] == 0, "terminated"); sx_cover("printed");
	delete[] s;
}
SX_CASE(print_char) { print<char>(); }
SX_CASE(print_wide) { print<wchar_t>(); }
template <class T> static void round_trip()
{
	uuid_t id, r; memcpy(id, base_, 16);
	unsigned part = sx_choose(8, "part"); bool lower = sx_choose(2, "lower");
	sx_symbolic(&id[part * 2], 2, "part");
	memset(r, 0x55, 16);
	T s[64]; size_t n = form(s, id, lower);
	T* h = new T[n + 1]; memcpy(h, s, n * sizeof(T)); h[n] = 0;
	sx_check(strtouuid(h, n + sx_choose(2, "limit"), r), "UUID read");
	sx_check(sx_memeq(r, id, 16), "same UUID"); sx_cover("read");
	delete[] h;
}
SX_CASE(round_trip_char) { round_trip<char>(); }
SX_CASE(round_trip_wide) { round_trip<wchar_t>(); }
template <class T> struct held { T* p; size_t limit; held(const T* s, size_t n) { uint32_t k = sx_choose(3, "end"); p = new T[n + (k != 0)]; memcpy(p, s, n * sizeof(T)); if (k) p[n] = 0; limit = k == 0 ? n : k == 1 ? n + 1 : SIZE_MAX; } ~held() { delete[] p; } };
template <class T> static void cut()
{
	T s[64]; size_t n = form(s, base_, sx_choose(2, "lower")); n = sx_choose((uint32_t)n, "cut");
	held<T> h(s, n); uuid_t r;
	sx_check(!strtouuid(h.p, h.limit, r), "incomplete UUID rejected"); sx_cover("cut");
}
SX_CASE(cut_char) { cut<char>(); }
SX_CASE(cut_wide) { cut<wchar_t>(); }
template <class T> static void damaged()
{
	T s[64]; size_t n = form(s, base_, false), at = sx_choose((uint32_t)n, "at");
	T was = s[at]; sx_symbolic(&s[at], sizeof(T), "unit");
	unsigned c = (unsigned)s[at], a = (c | 0x20) - 'a';
	bool mark = was == '{' || was == '}' || was == '-';
	if (mark) sx_assume(s[at] != was);
	else sx_assume(!(((c - '0') < 10) | ((a < 6) & (c < 128)))); // not a digit
	if (!mark) {
		T before = s[at - 1], after = s[at + 1]; bool first = before == '{' || before == '-', last = after == '-' || after == '}';
		if (first || last) sx_assume(!sp(s[at])); // white space around
		if (last) sx_assume(s[at] != '-'); // the dash, and a sign
		if (first) sx_assume((s[at] != '+') & (s[at] != '-')); // a number with a sign
		if (at > 1 && before == '0' && (s[at - 2] == '-' || s[at - 2] == '{')) sx_assume((s[at] | 0x20) != 'x'); // a number with its base
	}
	held<T> h(s, n); uuid_t r;
	sx_check(!strtouuid(h.p, h.limit, r), "damaged UUID rejected"); sx_cover("damaged");
}
SX_CASE(damaged_char) { damaged<char>(); }
SX_CASE(damaged_wide) { damaged<wchar_t>(); }
template <class T> static void around()
{
	T s[64], d[64]; size_t n = form(s, base_, sx_choose(2, "lower"));
	static const unsigned place[] = { 0, 1, 9, 10, 14, 15, 19, 20, 24, 25, 37, 38 };
	unsigned k = sx_choose(12, "place"), at = place[k];
	unsigned m = 1 + sx_choose(2, "units");
	memcpy(d, s, at * sizeof(T)); sx_symbolic(d + at, m * sizeof(T), "around"); memcpy(d + at + m, s + at, (n - at) * sizeof(T));
	bool blank = true, odd = false, done = false;
	for (unsigned i = 0; i < m; ++i) {
		T c = d[at + i]; unsigned a = ((unsigned)c | 0x20) - 'a';
		if (at == 38) { done |= c == 0; blank &= sp(c) | done; }
		else {
			blank &= sp(c);
			odd |= (c == '+') | (c == '-') | (c == '0') | ((c | 0x20) == 'x'); // forms of a number
			if (k == 2 || k == 4 || k == 6 || k == 8 || k == 10) odd |= ((unsigned)c - '0' < 10) | ((a < 6) & ((unsigned)c < 128));
		}
	}
	if (at != 38) sx_assume(!odd);
	if (at == 37) sx_assume(d[at] != '}'); // the end
	held<T> h(d, n + m); uuid_t r; memset(r, 0x55, 16);
	bool got = strtouuid(h.p, h.limit, r);
	sx_check(got == blank, "only white space around parts");
	if (got) { sx_check(sx_memeq(r, base_, 16), "same UUID"); sx_cover("spaced"); } else sx_cover("foreign");
}
SX_CASE(around_char) { around<char>(); }
SX_CASE(around_wide) { around<wchar_t>(); }
template <class T> static void too_long()
{
	// One more digit than the part can have: a leading digit that is not zero
	static const unsigned place[] = { 1, 10, 15, 20, 25 };
	static const unsigned char ones[16] = { 0x11,0x11,0x11,0x11,0x11,0x11,0x11,0x11,0x11,0x11,0x11,0x11,0x11,0x11,0x11,0x11 };
	T s[64], d[64]; size_t n = form(s, ones, false); unsigned at = place[sx_choose(5, "part")];
	memcpy(d, s, at * sizeof(T)); sx_symbolic(d + at, sizeof(T), "digit"); memcpy(d + at + 1, s + at, (n - at) * sizeof(T));
	unsigned c = (unsigned)d[at], a = (c | 0x20) - 'a';
	sx_assume((c - '1' < 9) | ((a < 6) & (c < 128)));
	held<T> h(d, n + 1); uuid_t r;
	sx_check(!strtouuid(h.p, h.limit, r), "part out of range rejected"); sx_cover("range");
}
SX_CASE(too_long_char) { too_long<char>(); }
SX_CASE(too_long_wide) { too_long<wchar_t>(); }
template <class T> static void missing()
{
	static const unsigned place[] = { 1, 9, 10, 14, 15, 19, 20, 24, 25, 37 };
	T s[64]; size_t n = form(s, base_, false); unsigned k = sx_choose(5, "part"), a = place[k * 2], b = place[k * 2 + 1], m = sx_choose(2, "blank");
	memmove(s + a + m, s + b, (n - b) * sizeof(T)); if (m) { sx_symbolic(s + a, sizeof(T), "unit"); sx_assume(sp(s[a])); }
	held<T> h(s, n - (b - a) + m); uuid_t r;
	sx_check(!strtouuid(h.p, h.limit, r), "missing part rejected"); sx_cover("missing");
}
SX_CASE(missing_char) { missing<char>(); }
SX_CASE(missing_wide) { missing<wchar_t>(); }
