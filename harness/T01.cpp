// @bounds pairs of texts of 0..3 (thorough 0..7) arbitrary code units each, char, char16_t, wchar_t and char against wchar_t; terminated or ending at the limit; every limit up to the length and unlimited; memory ends right after the terminator or limit
// @outside longer texts; locales other than C
// @assume folding and collating with a locale uses the C locale, in which they must equal ASCII folding and the order of (unsigned) code units
#include "text.h"
#include <stdex/string.hpp>
using namespace stdex;
// sign of the lexicographic comparison of the first n1 and n2 units
template <class A, class B> static int order(const A* a, size_t n, const B* b, size_t m, bool fold, bool rev)
{
	int r = 0; 
	for (size_t i = 0; i < n || i < m; ++i) {
		int d;
		if (i >= n) d = -1; else if (i >= m) d = 1;
		else {
			A x = rev ? a[n - 1 - i] : a[i]; B y = rev ? b[m - 1 - i] : b[i];
			if (fold) { x = lc(x); y = lc(y); }
			d = (int)(x > y) - (int)(x < y);
		}
		r = r ? r : d;
	}
	return r;
}
static unsigned N() { return sx_bound(3, 7); }
static size_t mn(size_t a, size_t b) { return a < b ? a : b; }
template <class A, class B> static void plain()
{
	text<A> a(N(), "n1"); text<B> b(N(), "n2");
	int r = order(a.p, a.n, b.p, b.n, false, false);
	sx_check(stdex::strncmp(a.p, a.limit, b.p, b.limit) == r, "strncmp with two limits");
	if (a.term && b.term) {
		sx_check(stdex::strcmp(a.p, b.p) == r, "strcmp");
		sx_check(stdex::strncmp(a.p, b.p, SIZE_MAX) == r, "strncmp without limit");
	}
	if (r == 0) sx_cover("equal"); else sx_cover(r < 0 ? "less" : "greater");
	sx_check((r == 0) == (a.n == b.n && sx_memeq(a.at, a.p, a.n * sizeof(A)) && order(b.p, b.n, a.p, a.n, false, false) == 0), "zero only for equal strings");
}
template <class A, class B> static void limited()
{
	// common limit: each text ends by its terminator or by the limit
	size_t c = sx_choose(N() + 1, "count");
	text<A> a(N(), "n1", true); text<B> b(N(), "n2", true);
	size_t na = mn(a.n, c), nb = mn(b.n, c);
	A* pa = new A[mn(a.n + 1, c)]; memcpy(pa, a.p, mn(a.n + 1, c) * sizeof(A));
	B* pb = new B[mn(b.n + 1, c)]; memcpy(pb, b.p, mn(b.n + 1, c) * sizeof(B));
	switch (sx_choose(4, "function")) {
	case 0: sx_check(stdex::strncmp(pa, pb, c) == order(a.p, na, b.p, nb, false, false), "strncmp with one limit"); break;
	case 1: sx_check(stdex::strrncmp(pa, pb, c) == order(a.p, na, b.p, nb, false, true), "strrncmp with one limit"); break;
	case 2: sx_check(stdex::strnicmp(pa, pb, c) == order(a.p, na, b.p, nb, true, false), "strnicmp with one limit"); break;
	case 3: sx_check(stdex::strnicmp(pa, pb, c, std::locale::classic()) == order(a.p, na, b.p, nb, true, false), "strnicmp with one limit and locale"); break;
	}
	sx_cover("limited");
	delete[] pa; delete[] pb;
}
template <class A, class B> static void reverse()
{
	text<A> a(N(), "n1"); text<B> b(N(), "n2");
	int r = order(a.p, a.n, b.p, b.n, false, true);
	sx_check(stdex::strrncmp(a.p, a.limit, b.p, b.limit) == r, "strrncmp with two limits");
	if (a.term && b.term) sx_check(stdex::strrcmp(a.p, b.p) == r, "strrcmp");
	sx_cover("reverse");
}
template <class A, class B> static void fold()
{
	text<A> a(N(), "n1"); text<B> b(N(), "n2");
	int r = order(a.p, a.n, b.p, b.n, true, false);
	bool loc = sx_choose(2, "locale");
	const std::locale& l = std::locale::classic();
	sx_check((loc ? stdex::strnicmp(a.p, a.limit, b.p, b.limit, l) : stdex::strnicmp(a.p, a.limit, b.p, b.limit)) == r, "strnicmp with two limits");
	if (a.term && b.term)
		sx_check((loc ? stdex::stricmp(a.p, b.p, l) : stdex::stricmp(a.p, b.p)) == r, "stricmp");
	sx_cover(loc ? "fold with locale" : "fold");
}
SX_CASE(plain_char) { plain<char, char>(); }
SX_CASE(plain_wide) { plain<wchar_t, wchar_t>(); }
SX_CASE(plain_16) { plain<char16_t, char16_t>(); }
SX_CASE(plain_mixed) { plain<char, wchar_t>(); }
SX_CASE(limited_char) { limited<char, char>(); }
SX_CASE(limited_wide) { limited<wchar_t, wchar_t>(); }
SX_CASE(reverse_char) { reverse<char, char>(); }
SX_CASE(reverse_wide) { reverse<wchar_t, wchar_t>(); }
SX_CASE(fold_char) { fold<char, char>(); }
SX_CASE(fold_wide) { fold<wchar_t, wchar_t>(); }
SX_CASE(fold_mixed) { fold<char, wchar_t>(); }
SX_CASE(arrays)
{
	char a[3]; char b[2]; sx_symbolic(a, 3, "a"); sx_symbolic(b, 2, "b");
	size_t na = a[0] == 0 ? 0 : a[1] == 0 ? 1 : a[2] == 0 ? 2 : 3, nb = b[0] == 0 ? 0 : b[1] == 0 ? 1 : 2;
	sx_check(stdex::strncmp(a, b) == order(a, na, b, nb, false, false), "strncmp of arrays");
	sx_check(stdex::strrncmp(a, b) == order(a, na, b, nb, false, true), "strrncmp of arrays");
	sx_check(stdex::strnicmp(a, b) == order(a, na, b, nb, true, false), "strnicmp of arrays");
	sx_check(stdex::strnicmp(a, b, std::locale::classic()) == order(a, na, b, nb, true, false), "strnicmp of arrays with locale");
	sx_cover("arrays");
}
template <class T, class U> static void collating()
{
	// within the text, whatever the limits and whatever comes behind it
	text<T> a(sx_bound(3, 4), "n1"); text<T> b(sx_bound(3, 4), "n2"); const std::locale& l = std::locale::classic();
	if (sizeof(T) > 1) for (size_t i = 0; i < a.n; ++i) sx_assume(a.p[i] > 0 && a.p[i] < 0x110000); if (sizeof(T) > 1) for (size_t i = 0; i < b.n; ++i) sx_assume(b.p[i] > 0 && b.p[i] < 0x110000);
	int r = order((const U*)a.p, a.n, (const U*)b.p, b.n, false, false); auto sg = [](int v) { return (v > 0) - (v < 0); };
	sx_check(sg(stdex::strncoll(a.p, a.limit, b.p, b.limit, l)) == r, "strncoll");
	if (a.term && b.term) sx_check(sg(stdex::strcoll(a.p, b.p, l)) == r, "strcoll");
	sx_cover("collated");
}
SX_CASE(collating_char) { collating<char, unsigned char>(); }
SX_CASE(collating_wide) { collating<wchar_t, wchar_t>(); }
SX_CASE(collating_arrays)
{
	char a[4], b[3]; sx_symbolic(a, 4, "a"); sx_symbolic(b, 3, "b"); size_t na = 0, nb = 0; while (na < 4 && a[na]) ++na; while (nb < 3 && b[nb]) ++nb;
	int v = stdex::strncoll(a, b, std::locale::classic()); sx_check((v > 0) - (v < 0) == order((unsigned char*)a, na, (unsigned char*)b, nb, false, false), "the texts in the arrays"); sx_cover("arrays");
}
