// @bounds texts of 0..4 (thorough 0..6) arbitrary units (char, wchar_t), terminated or ending at the limit; string objects of the same sizes, which may contain zero units; every char and every wchar_t for single-character conversion
// @outside longer texts; locales other than C
// @assume with a locale the C locale is used, in which white space and letters must be the ASCII ones
#include "text.h"
#include <stdex/string.hpp>
using namespace stdex;
static unsigned N() { return sx_bound(4, 6); }
static const std::locale& L() { return std::locale::classic(); }
template <class T> static void classify(T c)
{
	bool up = (c >= 'A') & (c <= 'Z'), lo = (c >= 'a') & (c <= 'z'), di = (c >= '0') & (c <= '9');
	sx_check(stdex::tolower(c) == lc(c) && stdex::toupper(c) == uc(c), "case of one character");
	sx_check(stdex::tolower(stdex::toupper(c)) == lc(c) && stdex::toupper(stdex::tolower(c)) == uc(c), "case conversion round trip");
	sx_check(stdex::isspace(c) == sp(c), "isspace");
	sx_check(stdex::isupper(c) == up && stdex::islower(c) == lo && stdex::isdigit(c) == di && stdex::isalpha(c) == (up | lo), "letters and digits");
	sx_check(stdex::ispunct(c) == ((c > 32) & (c < 127) & !(up | lo | di)), "punctuation");
	sx_check(stdex::is7bit(c) == ((c >= 0) & (c < 128)), "7-bit");
	sx_check(stdex::islbreak(c) == ((c == '\n') | (c == '\r')), "line break");
	if (up) sx_cover("letter");
}
SX_CASE(one_char) { classify((char)sx_u8("c")); }
SX_CASE(one_wide) { classify((wchar_t)sx_u32("c")); }
SX_CASE(one_16) { classify((char16_t)sx_u16("c")); }
template <class T> static void trims()
{
	text<T> s(N(), "n");
	uint32_t fn = sx_choose(3, "function"); bool loc = sx_choose(2, "locale");
	size_t a = 0, b = s.n;
	if (fn != 1) while (a < b && sp(s.at[a])) ++a;
	if (fn != 0) while (b > a && sp(s.at[b - 1])) --b;
	size_t r = fn == 0 ? (loc ? ltrim(s.p, s.limit, L()) : ltrim(s.p, s.limit)) : fn == 1 ? (loc ? rtrim(s.p, s.limit, L()) : rtrim(s.p, s.limit)) : (loc ? trim(s.p, s.limit, L()) : trim(s.p, s.limit));
	sx_check(r == b - a, "resulting length");
	bool ok = true; for (size_t i = a; i < b; ++i) ok &= s.p[i - a] == s.at[i];
	sx_check(ok, "the rest of the text is kept");
	if (r < s.n || s.term) sx_check(s.p[r] == 0, "terminated");
	sx_cover(r < s.n ? "trimmed" : "nothing to trim");
}
template <class T> static void trims_string()
{
	size_t n = sx_choose(N() + 1, "n"); T at[8]; sx_symbolic(at, sizeof at, "text");
	std::basic_string<T> s(at, n);
	uint32_t fn = sx_choose(3, "function"); bool loc = sx_choose(2, "locale");
	size_t a = 0, b = n;
	if (fn != 1) while (a < b && sp(at[a])) ++a;
	if (fn != 0) while (b > a && sp(at[b - 1])) --b;
	if (fn == 0) { if (loc) ltrim(s, L()); else ltrim(s); } else if (fn == 1) { if (loc) rtrim(s, L()); else rtrim(s); } else { if (loc) trim(s, L()); else trim(s); }
	sx_check(s.size() == b - a, "resulting size");
	bool ok = true; for (size_t i = a; i < b; ++i) ok &= s[i - a] == at[i];
	sx_check(ok, "the rest of the string is kept");
	sx_cover("string trimmed");
}
SX_CASE(trim_char) { trims<char>(); }
SX_CASE(trim_wide) { trims<wchar_t>(); }
SX_CASE(trim_string) { trims_string<char>(); }
SX_CASE(trim_wstring) { trims_string<wchar_t>(); }
template <class T> static void cases()
{
	text<T> s(N(), "n"); bool up = sx_choose(2, "upper"), loc = sx_choose(2, "locale");
	if (sx_choose(2, "string")) {
		std::basic_string<T> t(s.at, s.n); if (s.n > 1 && sx_choose(2, "zero inside")) t[0] = 0;
		std::basic_string<T> o(t);
		if (up) { if (loc) strupr(t, L()); else strupr(t); } else { if (loc) strlwr(t, L()); else strlwr(t); }
		bool ok = t.size() == o.size(); for (size_t i = 0; i < s.n; ++i) ok &= t[i] == (up ? uc(o[i]) : lc(o[i]));
		sx_check(ok, "case of a string"); sx_cover("string case");
	} else {
		if (up) { if (loc) strupr(s.p, s.limit, L()); else strupr(s.p, s.limit); } else { if (loc) strlwr(s.p, s.limit, L()); else strlwr(s.p, s.limit); }
		bool ok = true; for (size_t i = 0; i < s.n; ++i) ok &= s.p[i] == (up ? uc(s.at[i]) : lc(s.at[i]));
		sx_check(ok && (!s.term || s.p[s.n] == 0), "case of a text"); sx_cover("text case");
	}
}
SX_CASE(case_char) { cases<char>(); }
SX_CASE(case_wide) { cases<wchar_t>(); }
SX_CASE(case_array)
{
	char a[3], o[3]; sx_symbolic(a, 3, "text"); memcpy(o, a, 3);
	size_t n = a[0] == 0 ? 0 : a[1] == 0 ? 1 : a[2] == 0 ? 2 : 3;
	bool up = sx_choose(2, "upper"), loc = sx_choose(2, "locale");
	if (up) { if (loc) strupr(a, L()); else strupr(a); } else { if (loc) strlwr(a, L()); else strlwr(a); }
	for (size_t i = 0; i < 3; ++i) sx_check(a[i] == (i >= n ? o[i] : up ? uc(o[i]) : lc(o[i])), "case of an array");
	sx_cover("array case");
}
template <class T> static size_t newlines(const T* s, size_t n, T* d)
{
	size_t j = 0;
	for (size_t i = 0; i < n; ++i) { if (i + 1 < n && s[i] == '\r' && s[i + 1] == '\n') continue; d[j++] = s[i]; }
	return j;
}
template <class T> static void crlf()
{
	text<T> s(N() + 1, "n", true); T want[8]; size_t m;
	switch (sx_choose(4, "form")) {
	case 0: {
		T* d = new T[s.n + 1]; size_t r = crlf2nl(d, s.p);
		m = newlines(s.at, s.n, want);
		sx_check(r == m && d[m] == 0 && sx_memeq(d, want, m * sizeof(T)), "buffer form"); delete[] d;
		break; }
	case 1: {
		std::basic_string<T> d(2, T('x')); crlf2nl(d, s.p);
		m = newlines(s.at, s.n, want);
		sx_check(d.size() == m && sx_memeq(d.data(), want, m * sizeof(T)), "string form");
		break; }
	case 2: {
		std::basic_string<T> d(s.at, s.n); if (s.n && sx_choose(2, "zero inside")) { d[s.n / 2] = 0; s.at[s.n / 2] = 0; }
		crlf2nl(d);
		m = newlines(s.at, s.n, want);
		sx_check(d.size() == m && sx_memeq(d.data(), want, m * sizeof(T)), "in-place form");
		break; }
	default: { // in place, over the same buffer
		size_t r = crlf2nl(s.p, s.p);
		m = newlines(s.at, s.n, want);
		sx_check(r == m && s.p[m] == 0 && sx_memeq(s.p, want, m * sizeof(T)), "buffer form over its source"); }
	}
	sx_cover(m < s.n ? "line ends converted" : "nothing to convert");
}
SX_CASE(crlf_char) { crlf<char>(); }
SX_CASE(crlf_wide) { crlf<wchar_t>(); }
