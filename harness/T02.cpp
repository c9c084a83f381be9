// @bounds source texts of 0..3 (thorough 0..8) arbitrary units (char, wchar_t, char to wchar_t), terminated or ending at the limit; destinations of 0..5 (thorough 0..10) units; prior texts of 0..2 (thorough 0..4) units for concatenation
// @outside longer texts
#include "text.h"
#include <stdex/string.hpp>
using namespace stdex;
static unsigned N() { return sx_bound(3, 8); }
template <class T> struct dest { // a block of exactly n units
	size_t n; T* p;
	dest(size_t n) : n(n), p(new T[n]) { sx_symbolic(p, n * sizeof(T), "old content"); }
	~dest() { delete[] p; }
};
template <class D, class S> static bool copied(const D* d, const text<S>& s, size_t n) { bool r = true; for (size_t i = 0; i < n; ++i) r &= d[i] == static_cast<D>(s.at[i]); return r; }
template <class T> static bool kept(const text<T>& s) { bool r = true; for (size_t i = 0; i < s.n; ++i) r &= s.p[i] == s.at[i]; return r && (!s.term || s.p[s.n] == 0); }
template <class D, class S> static void copy()
{
	text<S> s(N(), "n");
	switch (sx_choose(3, "function")) {
	case 0: {
		sx_assume(s.term);
		dest<D> d(s.n + 1);
		sx_check(stdex::strcpy(d.p, s.p) == s.n, "strcpy returns the length");
		sx_check(copied(d.p, s, s.n) && d.p[s.n] == 0, "strcpy copies text and terminator"); sx_cover("strcpy");
		break; }
	case 1: {
		size_t c = s.term ? s.n + sx_choose(3, "room") : s.n;
		dest<D> d(c);
		sx_check(stdex::strncpy(d.p, s.p, c) == s.n, "strncpy returns the length");
		sx_check(copied(d.p, s, s.n), "strncpy copies the text");
		if (s.n < c) sx_check(d.p[s.n] == 0, "strncpy terminates when there is room"); sx_cover("strncpy");
		break; }
	case 2: {
		dest<D> d(sx_choose(N() + 3, "room"));
		size_t m = s.n < d.n ? s.n : d.n;
		sx_check(stdex::strncpy(d.p, d.n, s.p, s.limit) == m, "strncpy returns the resulting length");
		sx_check(copied(d.p, s, m), "strncpy copies the longest prefix");
		if (m < d.n) sx_check(d.p[m] == 0, "strncpy terminates when there is room");
		sx_cover(s.n < d.n ? "fits" : s.n == d.n ? "fits without terminator" : "does not fit");
		break; }
	}
	sx_check(kept(s), "source unchanged");
}
template <class D, class S> static void cat()
{
	text<S> s(sx_bound(2, 4), "n");
	size_t k = sx_choose(sx_bound(3, 5), "prior");
	D old[8]; sx_symbolic(old, sizeof(old), "prior text"); for (size_t i = 0; i < k; ++i) sx_assume(old[i] != 0);
	size_t r, n; D* p;
	uint32_t fn = sx_choose(3, "function");
	if (fn == 2) { // into a buffer of n units; its text may fill it
		n = sx_choose(sx_bound(6, 9), "room"); sx_assume(k <= n);
		p = new D[n]; for (size_t i = 0; i < n; ++i) p[i] = i < k ? old[i] : 0;
		r = stdex::strncat(p, n, s.p, s.limit);
		sx_cover(k == n ? "no room" : k + s.n < n ? "fits" : k + s.n == n ? "fits without terminator" : "does not fit");
	} else {
		n = k + s.n + 1;
		p = new D[n]; for (size_t i = 0; i < k; ++i) p[i] = old[i]; p[k] = 0;
		if (fn == 0) { sx_assume(s.term); r = stdex::strcat(p, s.p); sx_cover("strcat"); }
		else { r = stdex::strncat(p, s.p, s.limit); sx_cover("strncat"); }
	}
	size_t m = k + s.n < n ? k + s.n : n;
	sx_check(r == m, "resulting length");
	bool ok = true; for (size_t i = 0; i < k && i < m; ++i) ok &= p[i] == old[i];
	sx_check(ok, "prior text kept");
	sx_check(copied(p + k, s, m - k), "source appended");
	if (m < n) sx_check(p[m] == 0, "terminated when there is room");
	delete[] p;
}
template <class T> static void dup()
{
	text<T> s(N(), "n");
	uint64_t live = sx_live_blocks();
	T* d = sx_choose(2, "limited") ? (sx_cover("strndup"), stdex::strndup(s.p, s.limit)) : (sx_assume(s.term), sx_cover("strdup"), stdex::strdup(s.p));
	sx_check(sx_live_blocks() == live + 1, "one block allocated");
	sx_check(d != s.p && copied(d, s, s.n) && d[s.n] == 0, "terminated copy");
	for (size_t i = 0; i < s.n; ++i) d[i] = 1;
	sx_check(kept(s), "independent of the source");
	delete[] d;
}
SX_CASE(copy_char) { copy<char, char>(); }
SX_CASE(copy_wide) { copy<wchar_t, wchar_t>(); }
SX_CASE(copy_widen) { copy<wchar_t, char>(); }
SX_CASE(copy_narrow) { copy<char16_t, char>(); }
SX_CASE(cat_char) { cat<char, char>(); }
SX_CASE(cat_wide) { cat<wchar_t, wchar_t>(); }
SX_CASE(cat_widen) { cat<wchar_t, char>(); }
SX_CASE(dup_char) { dup<char>(); }
SX_CASE(dup_wide) { dup<wchar_t>(); }
SX_CASE(dup_null) { sx_check(stdex::strdup((const char*)nullptr) == nullptr, "no string"); sx_cover("null"); }
SX_CASE(arrays)
{
	char a[3]; sx_symbolic(a, 3, "a"); size_t n = a[0] == 0 ? 0 : a[1] == 0 ? 1 : a[2] == 0 ? 2 : 3;
	wchar_t d[2]; size_t r = stdex::strncpy(d, a);
	sx_check(r == (n < 2 ? n : 2), "length"); for (size_t i = 0; i < r; ++i) sx_check(d[i] == a[i], "prefix"); if (r < 2) sx_check(d[r] == 0, "terminated");
	char* p = stdex::strndup(a); bool ok = true; for (size_t i = 0; i < n; ++i) ok &= p[i] == a[i]; sx_check(ok && p[n] == 0, "duplicate of an array"); delete[] p;
	sx_cover("arrays");
}
