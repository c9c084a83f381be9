// @bounds any text: 8-bit results, 0..4 (thorough 0..5) arbitrary units with radix 0, 2, 8, 10, 16, 36; wide text 0..3 (thorough 0..4). Long numbers: optional sign, then up to 6 (16-bit), 11 (32-bit) or 21 (64-bit) digits, decimal, hexadecimal and octal, of which the last 4 (thorough 6) units are arbitrary and the leading ones are those of a signed or unsigned limit, zeros, or nines
// @outside 64-bit numbers of 20 digits with every digit arbitrary at once; floating point (strtod is the C library's)
#include "text.h"
#include <stdex/string.hpp>
using namespace stdex;
template <class T> static unsigned digit(T c)
{
	unsigned u = (unsigned)c, d = u - '0', a = (u | 0x20) - 'a';
	return d < 10 ? d : (a < 26 && u < 128) ? a + 10 : 99;
}
struct num { bool neg; uint64_t hi, lo; size_t end; }; // magnitude hi * 2^32 + lo
template <class T> static num model(const T* s, size_t n, int radix)
{
	num r{}; size_t i = 0;
	while (i < n && sp(s[i])) ++i;
	if (i < n && (s[i] == '+' || s[i] == '-')) r.neg = s[i++] == '-';
	if (radix == 16) { if (i + 1 < n && s[i] == '0' && (s[i + 1] | 0x20) == 'x') i += 2; }
	else if (radix == 0) {
		radix = 10;
		if (i < n && s[i] == '0') { radix = 8; if (++i < n && (s[i] | 0x20) == 'x') { radix = 16; ++i; } }
	}
	for (; i < n; ++i) {
		unsigned d = digit(s[i]);
		if (d >= (unsigned)radix) break;
		r.lo = r.lo * radix + d; r.hi = r.hi * radix + (r.lo >> 32); r.lo &= 0xffffffff;
	}
	r.end = i;
	return r;
}
template <class U> static U limit_u(const num& r)
{
	uint64_t v = r.hi << 32 | r.lo, mx = (U)-1;
	return r.neg ? U(0) : U(((r.hi >> 32) | (v > mx)) ? mx : v);
}
template <class I> static I limit_i(const num& r)
{
	uint64_t v = r.hi << 32 | r.lo, mx = (1ull << (sizeof(I) * 8 - 1)) - 1 + r.neg;
	uint64_t m = ((r.hi >> 32) | (v > mx)) ? mx : v;
	return (I)(r.neg ? 0 - m : m);
}
template <class T, class U, class I> static void both(const T* p, size_t limit, const T* at, size_t n, int radix)
{
	num want = model(at, n, radix);
	size_t end = 99;
	if (sx_choose(2, "signed")) {
		I v = strtoint<T, I>(p, limit, &end, radix);
		sx_check(v == limit_i<I>(want), "signed value is exact or saturated");
		if (v < 0) sx_cover("negative");
	} else {
		U v = strtouint<T, U>(p, limit, &end, radix);
		sx_check(v == limit_u<U>(want), "unsigned value is exact or saturated");
		if (v > 9) sx_cover("positive");
	}
	sx_check(end == want.end, "end");
}
static const int R[] = { 10, 16, 0, 2, 8, 36 };
SX_CASE(any_8)
{
	text<char> s(sx_bound(4, 5), "n");
	both<char, uint8_t, int8_t>(s.p, s.limit, s.at, s.n, R[sx_choose(6, "radix")]);
}
SX_CASE(any_16)
{
	text<char> s(sx_bound(3, 5), "n");
	both<char, uint16_t, int16_t>(s.p, s.limit, s.at, s.n, R[sx_choose(3, "radix")]);
}
SX_CASE(any_wide)
{
	text<wchar_t> s(sx_bound(3, 4), "n");
	both<wchar_t, uint8_t, int8_t>(s.p, s.limit, s.at, s.n, R[sx_choose(3, "radix")]);
}
// a number near a limit: leading digits of the limit, then arbitrary units
template <class U, class I> static void near(const char* const* lead, unsigned nlead, unsigned len, int radix)
{
	const char* l = lead[sx_choose(nlead, "leading digits")];
	size_t n = 0; char b[32];
	uint32_t sgn = sx_choose(2, "sign"); if (sgn) b[n++] = '-';
	size_t tail = sx_bound(3, 5), k = sx_choose(2, "short") ? len - 1 : len;
	for (size_t i = 0; i + tail < k; ++i) b[n++] = l[i];
	sx_symbolic(b + n, tail, "last units"); for (size_t i = 0; i < tail; ++i) sx_assume(b[n + i] != 0);
	n += tail;
	char* p = new char[n]; memcpy(p, b, n);
	both<char, U, I>(p, n, b, n, radix);
	delete[] p;
}
SX_CASE(near_16) { static const char* const L[] = { "65535", "32767", "00000", "99999" }; near<uint16_t, int16_t>(L, 4, 5, 10); }
SX_CASE(near_16_long) { static const char* const L[] = { "065535", "032768", "655351" }; near<uint16_t, int16_t>(L, 3, 6, 10); }
SX_CASE(near_16_hex) { static const char* const L[] = { "0xffff", "0x7fff" }; near<uint16_t, int16_t>(L, 2, 6, 16); }
SX_CASE(near_32) { static const char* const L[] = { "4294967295", "2147483647", "9999999999" }; near<uint32_t, int32_t>(L, 3, 10, 10); }
SX_CASE(near_32_auto) { static const char* const L[] = { "0xffffffff", "0x7fffffff", "0X80000000" }; near<uint32_t, int32_t>(L, 3, 10, 0); }
SX_CASE(near_32_oct) { static const char* const L[] = { "037777777777", "017777777777", "020000000000", "040000000000" }; near<uint32_t, int32_t>(L, 4, 12, 0); }
SX_CASE(near_64) { static const char* const L[] = { "18446744073709551615", "09223372036854775807", "99999999999999999999" }; near<uint64_t, int64_t>(L, 3, 20, 10); }
SX_CASE(near_64_long) { static const char* const L[] = { "018446744073709551615", "009223372036854775808", "184467440737095516150" }; near<uint64_t, int64_t>(L, 3, 21, 10); }
SX_CASE(near_64_hex) { static const char* const L[] = { "ffffffffffffffff", "7fffffffffffffff", "8000000000000000" }; near<uint64_t, int64_t>(L, 3, 16, 16); }
SX_CASE(wrappers)
{
	text<char> s(sx_bound(3, 4), "n");
	size_t e = 99; num w = model(s.at, s.n, 10);
	switch (sx_choose(10, "function")) {
	case 0: sx_check(strto8(s.p, s.limit, &e, 10) == limit_i<int8_t>(w), "strto8"); break;
	case 1: sx_check(strto16(s.p, s.limit, &e, 10) == limit_i<int16_t>(w), "strto16"); break;
	case 2: sx_check(strto32(s.p, s.limit, &e, 10) == limit_i<int32_t>(w), "strto32"); break;
	case 3: sx_check(strto64(s.p, s.limit, &e, 10) == limit_i<int64_t>(w), "strto64"); break;
	case 4: sx_check(strtoi(s.p, s.limit, &e, 10) == limit_i<int64_t>(w), "strtoi"); break;
	case 5: sx_check(strtou8(s.p, s.limit, &e, 10) == limit_u<uint8_t>(w), "strtou8"); break;
	case 6: sx_check(strtou16(s.p, s.limit, &e, 10) == limit_u<uint16_t>(w), "strtou16"); break;
	case 7: sx_check(strtou32(s.p, s.limit, &e, 10) == limit_u<uint32_t>(w), "strtou32"); break;
	case 8: sx_check(strtou64(s.p, s.limit, &e, 10) == limit_u<uint64_t>(w), "strtou64"); break;
	case 9: sx_check(strtoui(s.p, s.limit, &e, 10) == limit_u<uint64_t>(w), "strtoui"); break;
	}
	sx_check(e == w.end, "end");
	sx_check(strtou32(s.p, s.limit, (size_t*)nullptr, 10) == limit_u<uint32_t>(w), "end is optional");
	sx_cover("wrappers");
}
SX_CASE(arrays)
{
	char a[3]; sx_symbolic(a, 3, "text"); size_t n = a[0] == 0 ? 0 : a[1] == 0 ? 1 : a[2] == 0 ? 2 : 3, e = 99;
	num w = model(a, n, 16);
	switch (sx_choose(8, "function")) {
	case 0: sx_check(strto8(a, &e, 16) == limit_i<int8_t>(w), "strto8"); break;
	case 1: sx_check(strto16(a, &e, 16) == limit_i<int16_t>(w), "strto16"); break;
	case 2: sx_check(strto32(a, &e, 16) == limit_i<int32_t>(w), "strto32"); break;
	case 3: sx_check(strto64(a, &e, 16) == limit_i<int64_t>(w), "strto64"); break;
	case 4: sx_check(strtoi(a, &e, 16) == limit_i<int64_t>(w), "strtoi"); break;
	case 5: sx_check(strtou8(a, &e, 16) == limit_u<uint8_t>(w), "strtou8"); break;
	case 6: sx_check(strtou16(a, &e, 16) == limit_u<uint16_t>(w), "strtou16"); break;
	case 7: sx_check(strtou32(a, &e, 16) == limit_u<uint32_t>(w), "strtou32"); break;
	}
	sx_check(e == w.end, "end");
	sx_cover("arrays");
}
