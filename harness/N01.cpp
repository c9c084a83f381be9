// @bounds the conversion engine (iconv) is any machine with a state: units that become 1..3 units, begin or end a shifted mode that must be closed, are invalid, or need a successor; it stops at any output limit of 3 units or more; texts of 0..4 (thorough 5) arbitrary units, and of 1000..1030 units around the internal buffer with arbitrary units at its boundary; bounds and terminators anywhere; histories of 2 (thorough also 3) conversions with one converter; units of 1, 2 and 4 bytes; every pair of character sets, every alias in any letter case, and names of up to 3 arbitrary characters
// @outside the conversion tables of the C library's iconv, which is trusted to convert; std::bad_alloc; Windows
#include "common.h"
#include <stdex/unicode.hpp>
#include <type_traits>
using namespace std;
using namespace stdex;
static struct machine { bool shifted, refuse; unsigned opened, closed, from, to; size_t limit; char names[2][16]; bool open[8]; } M;
static int known(iconv_t h) { for (unsigned i = 0; i < M.opened; ++i) if (h == (iconv_t)&M.open[i]) return (int)i; return -1; }
static const char* locale_name = "UTF-8";
extern "C" char* nl_langinfo(nl_item) { return (char*)locale_name; }
extern "C" iconv_t iconv_open(const char* to, const char* from)
{
	if (M.refuse) { errno = EINVAL; return (iconv_t)-1; }
	sx_check(M.opened < 8 && strlen(to) < 16 && strlen(from) < 16, "harness"); strcpy(M.names[0], from); strcpy(M.names[1], to); M.shifted = false; M.open[M.opened] = true; return (iconv_t)&M.open[M.opened++];
}
extern "C" int iconv_close(iconv_t h) { int i = known(h); sx_check(i >= 0 && M.open[i], "a converter is released once"); M.open[i] = false; ++M.closed; return 0; }
static uint32_t unit(const char* p, unsigned size) { uint32_t v = 0; memcpy(&v, p, size); return v; }
enum : uint32_t { OPEN = '<', SHUT = '>', LEAD = '!', BAD = '?' };
// one unit of the source, in the mode `shifted`: what it becomes (0: nothing), or an error
static int step(const uint32_t* s, size_t n, bool& shifted, uint32_t* out, unsigned& used)
{
	uint32_t c = s[0]; int m = 0; used = 1;
	if (c == BAD) return -EILSEQ;
	if (c == LEAD) { if (n < 2) return -EINVAL; used = 2; out[0] = s[1] ^ 64; out[1] = out[0]; out[2] = out[0]; return 3; }
	bool want = c >= 'a' && c <= 'z';
	if (want != shifted) { out[m++] = want ? OPEN : SHUT; shifted = want; }
	out[m++] = c; return m;
}
extern "C" size_t iconv(iconv_t h, char** in, size_t* inleft, char** out, size_t* outleft)
{
	sx_check(known(h) >= 0 && M.open[known(h)], "an open converter");
	size_t room = outleft ? *outleft / M.to : 0; if (room > M.limit) room = M.limit;
	auto put = [&](uint32_t v) { memcpy(*out, &v, M.to); *out += M.to; *outleft -= M.to; --room; };
	if (!in || !*in) {
		if (out && *out && M.shifted) { if (!room) { errno = E2BIG; return (size_t)-1; } put(SHUT); }
		M.shifted = false; return 0;
	}
	while (*inleft) {
		uint32_t s[2] = { 0, 0 }, o[4]; size_t n = *inleft / M.from; sx_check(n && *inleft % M.from == 0, "whole units");
		s[0] = unit(*in, M.from); if (n > 1) s[1] = unit(*in + M.from, M.from);
		bool mode = M.shifted; unsigned used; int m = step(s, n, mode, o, used);
		if (m < 0) { errno = -m; return (size_t)-1; }
		if ((size_t)m > room) { errno = E2BIG; return (size_t)-1; }
		for (int i = 0; i < m; ++i) put(o[i]);
		M.shifted = mode; *in += used * M.from; *inleft -= used * M.from;
	}
	return 0;
}
// the complete conversion, or the error
template <class T, class U> static int whole(const T* s, size_t n, vector<U>& r)
{
	bool shifted = false;
	for (size_t i = 0; i < n;) { uint32_t v[2] = { (uint32_t)make_unsigned_t<T>(s[i]), i + 1 < n ? (uint32_t)make_unsigned_t<T>(s[i + 1]) : 0 }, o[4]; unsigned used; int m = step(v, n - i, shifted, o, used); if (m < 0) return -m; for (int k = 0; k < m; ++k) r.push_back((U)o[k]); i += used; }
	if (shifted) r.push_back((U)SHUT); return 0;
}
template <class T, class U> static void fresh() { M = machine(); M.from = sizeof(T); M.to = sizeof(U); M.limit = SIZE_MAX; }
template <class T, class U>
static void once(charset_encoder<T, U>& e, size_t maxn)
{
	size_t n = sx_choose((uint32_t)maxn + 1, "n"), bound = sx_choose((uint32_t)n + 2, "bound"); bool any = bound == n + 1;
	T* t = (T*)malloc((n + any) * sizeof(T) + 1); sx_symbolic(t, n * sizeof(T), "text"); if (any) { t[n] = 0; bound = SIZE_MAX; }
	size_t l = 0; while (l < bound && l < n && t[l]) ++l;
	vector<U> ref; int err = whole<T, U>(t, l, ref);
	basic_string<U> d; unsigned how = sx_choose(3, "how"); d.assign(how == 2 ? 0 : 2, (U)'#'); size_t keep = how == 0 ? 2 : 0; bool threw = false; int code = 0;
	try { if (how == 0) { if (any && sx_choose(2, "z")) e.strcat(d, t); else e.strcat(d, t, bound); } else if (how == 1) { if (!any && sx_choose(2, "view")) e.strcpy(d, basic_string_view<T>(t, bound)); else e.strcpy(d, t, bound); } else d = any ? e.convert(t) : e.convert(t, bound); }
	catch (const system_error& x) { threw = true; code = x.code().value(); }
	sx_check(threw == (err != 0) && code == err, "invalid text is reported, and nothing else");
	if (!threw) { sx_check(d.size() == keep + ref.size(), "all of the text is converted"); sx_check(sx_memeq(d.data() + keep, ref.data(), ref.size() * sizeof(U)), "converted text"); sx_cover(ref.size() > l ? "longer" : "as long"); } else { sx_cover(code == EILSEQ ? "invalid" : "incomplete"); }
	if (how == 0) sx_check(d.size() >= 2 && d[0] == (U)'#' && d[1] == (U)'#', "what was there stays");
	free(t);
}
template <class T, class U> static void single(size_t n) { fresh<T, U>(); { charset_encoder<T, U> e(charset_id::utf7, charset_id::utf8); static const size_t L[] = { SIZE_MAX, 3, 4 }; M.limit = L[sx_choose(3, "limit")]; once(e, n); } sx_check(M.closed == 1 && M.opened == 1, "released"); }
SX_CASE(bytes) { single<char, char>(sx_bound(4, 5)); }
SX_CASE(widening) { single<char, wchar_t>(sx_bound(3, 4)); }
SX_CASE(narrowing) { single<wchar_t, char>(sx_bound(3, 4)); }
SX_CASE(halves) { single<char16_t, char32_t>(3); }
SX_CASE(again) { fresh<char, char>(); charset_encoder<char, char> e(charset_id::utf7, charset_id::utf8); unsigned rounds = 2; if (sx_tier() && sx_choose(2, "more")) rounds = 3; for (unsigned k = 0; k < rounds; ++k) { once(e, rounds == 3 ? 1 : 2); if (sx_choose(2, "clear")) e.clear(); } sx_cover("again"); }
template <class T, class U>
static void boundary()
{
	fresh<T, U>(); size_t cap = 1024 / sizeof(U), n = cap - 4 + sx_choose(8, "n"), bad = sx_choose(2, "error"); T* t = (T*)malloc(n * sizeof(T)); for (size_t i = 0; i < n; ++i) t[i] = (T)('A' + i % 23);
	size_t at = cap - 4; for (size_t i = at; i < at + 2 && i < n; ++i) { t[i] = (T)(uint8_t)sx_u8("unit"); sx_assume(t[i] != 0); } if (bad) t[n - 1] = (T)BAD;
	vector<U> ref; int err = whole<T, U>(t, n, ref); basic_string<U> d(1, (U)'#'); bool threw = false;
	{ charset_encoder<T, U> e(charset_id::utf7, charset_id::utf8); try { e.strcat(d, t, n); } catch (const system_error& x) { threw = true; sx_check(x.code().value() == err, "the error"); } }
	sx_check(threw == (err != 0), "errors"); if (!threw) { sx_check(d.size() == ref.size() + 1 && d[0] == (U)'#' && sx_memeq(d.data() + 1, ref.data(), ref.size() * sizeof(U)), "texts longer than the buffer"); sx_cover(ref.size() > cap ? "two rounds" : "one round"); }
	free(t);
}
SX_CASE(boundary_bytes) { boundary<char, char>(); }
SX_CASE(boundary_wide) { boundary<char, wchar_t>(); }
SX_CASE(long_text)
{
	// several rounds, each unit growing
	fresh<char, char>(); size_t n = 1200; if (sx_choose(2, "longer")) n = 5200; string s; for (size_t i = 0; i < n; ++i) s += i % 3 ? (char)('A' + i % 7) : '!'; char c = (char)sx_u8("unit"); sx_assume(c); s[sx_choose(2, "at") * (n - 1)] = c;
	vector<char> ref; int err = whole<char, char>(s.data(), s.size(), ref); string d; bool threw = false; charset_encoder<char, char> e(charset_id::utf7, charset_id::utf8); M.limit = 700; try { d = e.convert(string_view(s)); } catch (const system_error&) { threw = true; }
	sx_check(threw == (err != 0) && (threw || (d.size() == ref.size() && sx_memeq(d.data(), ref.data(), d.size()))), "long text"); if (!threw) sx_cover("long");
}
static const charset_id ids[] = { charset_id::system, charset_id::utf7, charset_id::utf8, charset_id::utf16, charset_id::utf32, charset_id::windows1250, charset_id::windows1251, charset_id::windows1252 };
static const char* const names[] = { "UTF-8", "UTF-7", "UTF-8", "UTF-16LE", "UTF-32LE", "CP1250", "CP1251", "CP1252" };
SX_CASE(opening)
{
	fresh<char, char>(); static const char* const L[] = { "UTF-8", "ISO-8859-2", "ANSI_X3.4-1968" }; locale_name = L[sx_choose(3, "locale")]; unsigned a = sx_choose(8, "from"), b = sx_choose(8, "to"); M.refuse = sx_choose(2, "refused"); bool threw = false;
	try { charset_encoder<char, char> e(ids[a], ids[b]); sx_check(e.from_encoding() == ids[a] && e.to_encoding() == ids[b], "ends"); sx_check(!strcmp(M.names[0], a ? names[a] : locale_name) && !strcmp(M.names[1], b ? names[b] : locale_name), "names"); } catch (const system_error& x) { threw = true; sx_check(x.code().value() == EINVAL, "reason"); }
	sx_check(threw == M.refuse && M.opened == M.closed && M.opened == !threw, "opened and released once"); sx_cover(threw ? "refused" : "opened"); M.refuse = false;
	if (!threw && a) sx_check(charset_from_name(names[a]) == ids[a], "the name of a character set names it");
	locale_name = a ? names[a] : "ISO-8859-2"; sx_check(charset_encoder<char, char>::system_charset() == ids[a], "the system's character set"); locale_name = "UTF-8";
}
template <class E> static void copy_of(E& e, unsigned n) { if constexpr (is_copy_constructible_v<E>) { E c(e); sx_check(c.convert("b") == e.convert("b"), "a copy converts alike"); } if constexpr (is_copy_assignable_v<E>) { E c(charset_id::utf8, charset_id::utf8); c = e; } }
SX_CASE(owners) { fresh<char, char>(); { charset_encoder<char, char> e(charset_id::utf7, charset_id::utf8); copy_of(e, 1); } sx_check(M.opened == M.closed, "each converter is released once"); sx_cover("one owner"); }
struct alias { const char* name; charset_id id; };
static const alias A[] = { { "UTF-7", charset_id::utf7 }, { "UNICODE-1-1-UTF-7", charset_id::utf7 }, { "csUnicode11UTF7", charset_id::utf7 }, { "UTF-8", charset_id::utf8 }, { "utf8", charset_id::utf8 }, { "UTF-16", charset_id::utf16 }, { "UTF-16LE", charset_id::utf16 }, { "UTF-32", charset_id::utf32 }, { "UTF-32LE", charset_id::utf32 },
	{ "cp1250", charset_id::windows1250 }, { "ms-ee", charset_id::windows1250 }, { "windows-1250", charset_id::windows1250 }, { "cp1251", charset_id::windows1251 }, { "ms-cyrl", charset_id::windows1251 }, { "windows-1251", charset_id::windows1251 }, { "cp1252", charset_id::windows1252 }, { "ms-ansi", charset_id::windows1252 }, { "windows-1252", charset_id::windows1252 } };
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
SX_CASE(aliases)
{
	const alias& a = A[sx_choose(sizeof(A) / sizeof(*A), "alias")]; size_t n = strlen(a.name); char* t = (char*)malloc(n + 1); t[n] = 0; sx_symbolic(t, n, "name");
	size_t diff = n; unsigned differing = 0; for (size_t i = 0; i < n; ++i) if (i + 4 < n) { char c = low(a.name[i]); sx_assume(low(t[i]) == c); } 
	for (size_t i = n < 4 ? 0 : n - 4; i < n; ++i) if (low(t[i]) != low(a.name[i])) { diff = i; ++differing; }
	charset_id id = charset_from_name(t); (void)diff;
	if (!differing) { sx_check(id == a.id, "any letter case"); sx_check(charset_from_name(string(t)) == id, "strings"); sx_cover("alias"); }
	else { size_t l = 0; while (t[l]) ++l; charset_id want = charset_id::system; for (const alias& b : A) { bool same = strlen(b.name) == l; for (size_t i = 0; i < l && same; ++i) same = low(b.name[i]) == low(t[i]); if (same) want = b.id; } sx_check(id == want, "other names are unknown"); sx_cover("other"); }
	free(t);
}
SX_CASE(unknown_names) { size_t n = sx_choose(4, "n"); char* t = (char*)malloc(n + 1); sx_symbolic(t, n, "name"); t[n] = 0; sx_check(charset_from_name(t) == charset_id::system, "unknown"); free(t); sx_cover("unknown"); }
