// @bounds texts of 0..4 (thorough 0..6) and samples of 0..3 (thorough 0..4) arbitrary units (char, wchar_t), terminated or ending at the limit; memory ends right after the terminator or limit
// @outside longer texts; locales other than C; not-terminated samples (the interface has no limit for them)
// @assume folding with a locale uses the C locale, in which it must equal ASCII folding; the character searched for is not the terminator
#include "text.h"
#include <stdex/string.hpp>
using namespace stdex;
template <class T> static void chars()
{
	text<T> s(sx_bound(4, 6), "n"); T c; sx_symbolic(&c, sizeof c, "character"); sx_assume(c != 0);
	uint32_t fn = sx_choose(3, "folding"); // none, ASCII, locale
	bool rev = sx_choose(2, "reverse"), lim = sx_choose(2, "limited");
	if (!lim) sx_assume(s.term);
	const std::locale& l = std::locale::classic();
	size_t want = npos;
	for (size_t k = 0; k < s.n; ++k) { size_t i = rev ? k : s.n - 1 - k; bool eq = fn ? lc(s.at[i]) == lc(c) : s.at[i] == c; want = eq ? i : want; }
	size_t r;
	if (fn == 0) r = lim ? (rev ? stdex::strrnchr(s.p, s.limit, c) : stdex::strnchr(s.p, s.limit, c)) : (rev ? stdex::strrchr(s.p, c) : stdex::strchr(s.p, c));
	else if (fn == 1) r = lim ? (rev ? stdex::strrnichr(s.p, s.limit, c) : stdex::strnichr(s.p, s.limit, c)) : (rev ? stdex::strrichr(s.p, c) : stdex::strichr(s.p, c));
	else r = lim ? (rev ? stdex::strrnichr(s.p, s.limit, c, l) : stdex::strnichr(s.p, s.limit, c, l)) : (rev ? stdex::strrichr(s.p, c, l) : stdex::strichr(s.p, c, l));
	sx_check(r == want, rev ? "position of the last occurrence" : "position of the first occurrence");
	if (r == npos) sx_cover("character not found"); else sx_cover("character found");
}
template <class T, class S> static void strings()
{
	text<T> s(sx_bound(4, 6), "n"); text<S> q(sx_bound(3, 4), "sample", true);
	uint32_t fn = sx_choose(3, "folding");
	bool lim = sx_choose(2, "limited");
	if (!lim) sx_assume(s.term);
	const std::locale& l = std::locale::classic();
	size_t want = npos;
	for (size_t k = s.n + 1; k--;) {
		if (k + q.n > s.n) continue;
		bool eq = true;
		for (size_t j = 0; j < q.n; ++j) eq &= fn ? lc(s.at[k + j]) == lc(q.at[j]) : s.at[k + j] == q.at[j];
		want = eq ? k : want;
	}
	size_t r;
	if (fn == 0) r = lim ? stdex::strnstr(s.p, s.limit, q.p) : stdex::strstr(s.p, q.p);
	else if (fn == 1) r = lim ? stdex::strnistr(s.p, s.limit, q.p) : stdex::stristr(s.p, q.p);
	else r = lim ? stdex::strnistr(s.p, s.limit, q.p, l) : stdex::stristr(s.p, q.p, l);
	sx_check(r == want, "position of the first occurrence of the sample");
	if (r == npos) sx_cover("sample not found"); else sx_cover("sample found");
}
SX_CASE(chars_char) { chars<char>(); }
SX_CASE(chars_wide) { chars<wchar_t>(); }
SX_CASE(strings_char) { strings<char, char>(); }
SX_CASE(strings_wide) { strings<wchar_t, wchar_t>(); }
SX_CASE(strings_mixed) { strings<wchar_t, char>(); }
SX_CASE(arrays)
{
	char a[3], q[3]; sx_symbolic(a, 3, "a"); sx_symbolic(q, 2, "sample"); q[2] = 0; char c = (char)sx_u8("character"); sx_assume(c);
	size_t n = a[0] == 0 ? 0 : a[1] == 0 ? 1 : a[2] == 0 ? 2 : 3;
	const std::locale& l = std::locale::classic();
	sx_check(stdex::strnlen(a) == n, "length");
	size_t f = npos, g = npos, fi = npos, gi = npos;
	for (size_t i = n; i--;) { f = a[i] == c ? i : f; fi = lc(a[i]) == lc(c) ? i : fi; }
	for (size_t i = 0; i < n; ++i) { g = a[i] == c ? i : g; gi = lc(a[i]) == lc(c) ? i : gi; }
	sx_check(stdex::strnchr(a, c) == f && stdex::strrnchr(a, c) == g, "character in an array");
	sx_check(stdex::strnichr(a, c) == fi && stdex::strrnichr(a, c) == gi && stdex::strnichr(a, c, l) == fi && stdex::strrnichr(a, c, l) == gi, "folded character in an array");
	sx_check(stdex::strnstr(a, q) == stdex::strnstr(a, 3, q) && stdex::strnistr(a, q) == stdex::strnistr(a, 3, q) && stdex::strnistr(a, q, l) == stdex::strnistr(a, 3, q), "sample in an array");
	sx_cover("arrays");
}
SX_CASE(classes)
{
	text<char> s(sx_bound(3, 4), "n");
	bool bl = true, b7 = true; for (size_t i = 0; i < s.n; ++i) { bl &= sp(s.at[i]); b7 &= (uint8_t)s.at[i] < 0x80; }
	sx_check(stdex::isblank(s.p, s.limit) == bl && stdex::isblank(s.p, s.limit, std::locale::classic()) == bl, "blank");
	sx_check(stdex::is7bit(s.p, s.limit) == b7, "7-bit");
	if (s.term) sx_check(stdex::strlen(s.p) == s.n, "length");
	sx_check(stdex::strnlen(s.p, s.limit) == s.n, "limited length");
	if (bl) sx_cover("blank");
}
