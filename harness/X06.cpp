// @bounds JSON: every text of up to 8 (thorough 9) units over the syntax-relevant characters; every escape, every \uXXXX, surrogate pairs with the limits and an arbitrary digit of each half, up to 3 (thorough 4) elements in sequence with arbitrary plain units; narrow and wide, plain units limited to those outside of syntax or not limited. CSS: every text of up to 8 (thorough 9) units over the syntax-relevant characters, after "url(" or "@import" in any case; terminated or limited by length; every earlier use
// @outside longer texts
// @assume start <= min(end, length)
#include "parse.h"
template <class T> struct alpha {
	T* p; size_t n, s, end; T at[24];
	alpha(const char* prefix, size_t max, const char* alphabet)
	{
		size_t k = strlen(prefix); s = prefix[0] ? 0 : sx_choose(2, "start"); if (s) at[0] = 'z'; n = s; for (size_t i = 0; i < k; ++i) at[n++] = T((unsigned char)prefix[i]);
		for (size_t m = sx_choose((uint32_t)max + 1, "length"); m--;) { uint8_t c = sx_u8("unit"); bool in = false; for (const char* a = alphabet; *a; ++a) in = in | (c == (uint8_t)*a); sx_assume(in); at[n++] = T((char)c); }
		make();
	}
	alpha(const T* t, size_t len) : s(0) { for (n = 0; n < len; ++n) at[n] = t[n]; make(); }
	void make() { bool z = sx_choose(2, "terminator"); p = new T[n + z]; for (size_t i = 0; i < n; ++i) p[i] = at[i]; if (z) p[n] = 0; end = z ? SIZE_MAX : n; }
	~alpha() { delete[] p; }
	uint32_t u(size_t i) const { return i < n ? (uint32_t)(typename std::make_unsigned<T>::type)at[i] : 0; }
};
template <class T> static std::shared_ptr<basic_parser<T>> unit(T c) { return std::make_shared<basic_cu<T>>(c); }
template <class T> static basic_json_string<T> json(bool strict)
{
	std::shared_ptr<basic_parser<T>> d[16]; for (int i = 0; i < 16; ++i) d[i] = unit(T("0123456789abcdef"[i]));
	const T no[] = { '"', '\\', 0 };
	std::shared_ptr<basic_parser<T>> chr = strict ? std::shared_ptr<basic_parser<T>>(std::make_shared<basic_cu_set<T>>(no, SIZE_MAX, true)) : std::make_shared<basic_any_cu<T>>();
	return basic_json_string<T>(unit(T('"')), chr, unit(T('\\')), unit(T('/')), unit(T('b')), unit(T('f')), unit(T('n')), unit(T('r')), unit(T('t')), unit(T('u')),
		std::make_shared<basic_integer16<T>>(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15]));
}
template <class T> struct string_ { T v[40]; size_t n = 0; void add(uint32_t c) { v[n++] = T(c); }
	void cp(uint32_t c) {
		if (sizeof(T) > 1 || c < 0x80) add(c);
		else if (c < 0x800) add(0xc0 | (c >> 6)), add(0x80 | (c & 63));
		else if (c < 0x10000) add(0xe0 | (c >> 12)), add(0x80 | ((c >> 6) & 63)), add(0x80 | (c & 63));
		else add(0xf0 | (c >> 18)), add(0x80 | ((c >> 12) & 63)), add(0x80 | ((c >> 6) & 63)), add(0x80 | (c & 63));
	} };
static int hexv(uint32_t c) { return c >= '0' && c <= '9' ? (int)c - '0' : c >= 'a' && c <= 'f' ? (int)c - 'a' + 10 : c >= 'A' && c <= 'F' ? (int)c - 'A' + 10 : -1; }
// definition-level reader; false when there is no whole string
template <class T> static bool read(const alpha<T>& t, bool strict, size_t& q, string_<T>& o)
{
	auto hex4 = [&](size_t p) { uint32_t v = 0; for (int i = 0; i < 4; ++i) { int h = hexv(t.u(p + i)); if (h < 0) return NONE; v = v * 16 + h; } return (size_t)v; };
	q = t.s; if (t.u(q) != '"') return false;
	for (++q;;) {
		uint32_t c = t.u(q); if (!c) return false;
		if (c == '"') { ++q; return true; }
		if (c == '\\') {
			uint32_t e = t.u(q + 1); size_t v;
			const char* k = "\"/bfnrt\\"; const char* w = "\"/\b\f\n\r\t\\"; bool done = false;
			for (; *k; ++k, ++w) if (e == (uint32_t)*k) { o.add(*w); q += 2; done = true; }
			if (done) continue;
			if (e == 'u' && (v = hex4(q + 2)) != NONE) {
				uint32_t c1 = (uint32_t)v; q += 6;
				if (c1 >= 0xd800 && c1 < 0xdc00 && t.u(q) == '\\' && t.u(q + 1) == 'u' && (v = hex4(q + 2)) != NONE && v >= 0xdc00 && v < 0xe000) { c1 = 0x10000 + ((c1 - 0xd800) << 10) + (uint32_t)(v - 0xdc00); q += 6; }
				o.cp(c1); continue;
			}
			if (strict) return false;
		}
		o.add(c); ++q;
	}
}
template <class T> static void compare(const alpha<T>& t, bool strict)
{
	basic_json_string<T> p = json<T>(strict); const T w[] = { '"', 'q', '"' }; if (sx_choose(2, "used")) sx_check(p.match(w, 0, 3) && p.value.size() == 1, "earlier match");
	bool r = p.match(t.p, t.s, t.end); string_<T> o; size_t q; bool ok = read(t, strict, q, o);
	sx_check(r == ok, "a whole string"); region_is(p, ok, t.s, q, "region");
	if (ok) { sx_check(p.value.size() == o.n, "length"); bool same = true; for (size_t i = 0; i < o.n; ++i) same = same & (p.value[i] == o.v[i]); sx_check(same, "decoded string"); sx_cover("string"); }
	else { sx_check(p.value.empty(), "nothing"); sx_cover("none"); }
}
SX_CASE(json_text) { bool strict = sx_choose(2, "strict"); if (sx_choose(2, "wide")) { alpha<wchar_t> t("", sx_bound(6, 7), "\"\\ua0"); compare(t, strict); } else { alpha<char> t("", sx_bound(8, 9), "\"\\ua0"); compare(t, strict); } }
template <class T> static void elements()
{
	T b[40]; size_t n = 0; b[n++] = '"'; string_<T> o; unsigned m = sx_choose(sx_bound(3, 4), "elements");
	for (unsigned i = 0; i < m; ++i) {
		unsigned k = sx_choose(10, "kind");
		if (k == 0) { T c; sx_symbolic(&c, sizeof c, "plain"); sx_assume((c != 0) & (c != '"') & (c != '\\')); b[n++] = c; o.v[o.n++] = c; }
		else if (k == 9) { b[n++] = '\\'; b[n++] = 'u'; b[n++] = '0'; b[n++] = '0'; b[n++] = 'E'; b[n++] = '9'; o.cp(0xe9); }
		else { b[n++] = '\\'; b[n++] = "\"/bfnrt\\"[sx_concrete(k - 1)]; o.add("\"/\b\f\n\r\t\\"[sx_concrete(k - 1)]); }
	}
	b[n++] = '"'; size_t fin = n; if (sx_choose(2, "more")) b[n++] = 'x';
	alpha<T> t(b, n); basic_json_string<T> p = json<T>(sx_choose(2, "strict")); bool r = p.match(t.p, 0, t.end);
	sx_check(r && at(p, 0, fin), "a whole string"); if (!r) return;
	sx_check(p.value.size() == o.n, "length"); bool same = true; for (size_t i = 0; i < o.n; ++i) same = same & (p.value[i] == o.v[i]); sx_check(same, "decoded string"); sx_cover("string");
}
SX_CASE(json_elements_char) { elements<char>(); }
SX_CASE(json_elements_wide) { elements<wchar_t>(); }
template <class T> static void unicode_(bool pair)
{
	T b[20]; size_t n = 0; b[n++] = '"'; bool upper = sx_choose(2, "upper");
	auto put = [&](uint32_t v) { b[n++] = T(v + '0' + (v > 9) * ((upper ? 'A' : 'a') - '0' - 10)); };
	auto nibble = [&] { return (uint32_t)sx_concrete(sx_range(0, 15, "digit")); };
	uint32_t a[4], c[4];
	if (!pair) { for (auto& x : a) x = nibble(); }
	else { a[0] = 13; a[1] = 8 + sx_choose(4, "high"); a[2] = sx_choose(2, "high") * 15; a[3] = sx_choose(3, "digit") * 7; c[0] = 13; c[1] = sx_choose(2, "low surrogate") ? 12 + sx_choose(4, "low") : nibble(); c[2] = sx_choose(2, "low") * 10; c[3] = nibble(); }
	b[n++] = '\\'; b[n++] = 'u'; for (uint32_t x : a) put(x);
	if (pair) { b[n++] = '\\'; b[n++] = 'u'; for (uint32_t x : c) put(x); }
	b[n++] = '"'; alpha<T> t(b, n); compare(t, true);
}
SX_CASE(json_unicode_char) { unicode_<char>(false); }
SX_CASE(T_json_unicode_wide) { unicode_<wchar_t>(false); }
SX_CASE(json_pair_char) { unicode_<char>(true); }
SX_CASE(json_pair_wide) { unicode_<wchar_t>(true); }
// --- CSS
template <class T> static bool white(T c) { return c == ' ' || (c >= 9 && c <= 13); }
template <class P, class T> static void css(P& p, const alpha<T>& t, size_t e, size_t cs, size_t ce)
{
	if (sx_choose(2, "used")) { p.interval.start = 0; p.interval.end = 3; p.content.start = 0; p.content.end = 3; }
	bool r = p.match(t.p, t.s, t.end); sx_check(r == (e != NONE), "matched exactly when complete"); region_is(p, r, t.s, e, "region"); if (r) sx_check(p.content.start == cs && p.content.end == ce, "content between the delimiters"); else sx_check(!p.content, "no content");
	if (r) sx_cover("match"); else sx_cover("none");
}
template <class T> static size_t quoted(const alpha<T>& t, size_t q, size_t& cs, size_t& ce)
{
	uint32_t k = t.u(q); if (k != '"' && k != '\'') return NONE;
	for (cs = ++q; t.u(q) != k; ++q) { if (!t.u(q)) return NONE; if (t.u(q) == '\\' && t.u(q + 1)) ++q; }
	ce = q; return q + 1;
}
template <class T> static void css_comment_() { alpha<T> t("", sx_bound(8, 10), "/*a"); size_t q = t.s, e = NONE, cs = q + 2, ce = 0; if (t.u(q) == '/' && t.u(q + 1) == '*') for (q += 2; t.u(q); ++q) if (t.u(q) == '*' && t.u(q + 1) == '/') { ce = q; e = q + 2; break; } basic_css_comment<T> p; css(p, t, e, cs, ce); }
SX_CASE(css_comment_char) { css_comment_<char>(); }
SX_CASE(css_comment_wide) { css_comment_<wchar_t>(); }
template <class T> static void css_string_() { alpha<T> t("", sx_bound(8, 9), "\"'\\a\n"); size_t cs = 0, ce = 0, e = quoted(t, t.s, cs, ce); basic_css_string<T> p; css(p, t, e, cs, ce); }
SX_CASE(css_string_char) { css_string_<char>(); }
SX_CASE(css_string_wide) { css_string_<wchar_t>(); }
SX_CASE(css_uri)
{
	const char* pre = ""; switch (sx_choose(4, "prefix")) { case 0: pre = "url("; break; case 1: pre = "URL("; break; case 2: pre = "uRl"; break; default: pre = "urr("; }
	alpha<char> t(pre, sx_bound(7, 8), "\"'\\a )"); size_t q = 4, e = NONE, cs = 0, ce = 0;
	if ((pre[0] == 'u' || pre[0] == 'U') && pre[2] != 'r' && pre[3] == '(') {
		auto skip = [&] { while (white(t.u(q))) ++q; };
		skip(); if (t.u(q) == '"' || t.u(q) == '\'') { size_t x = quoted(t, q, cs, ce); if (x != NONE) { q = x; skip(); if (t.u(q) == ')') e = q + 1; } }
		else { cs = ce = q; for (; t.u(q); ) { if (t.u(q) == ')') { e = q + 1; break; } if (t.u(q) == '\\' && t.u(q + 1)) ce = q += 2; else if (white(t.u(q))) ++q; else ce = ++q; } }
	}
	basic_css_uri<char> p; css(p, t, e, cs, ce);
}
SX_CASE(css_import)
{
	const char* pre = ""; switch (sx_choose(4, "prefix")) { case 0: pre = "@import"; break; case 1: pre = "@IMPORT"; break; case 2: pre = "@impor"; break; default: pre = "@imporx"; }
	alpha<char> t(pre, sx_bound(7, 8), "\"'\\a "); size_t q = 7, e = NONE, cs = 0, ce = 0;
	if (pre[6] == 't' || pre[6] == 'T') { while (white(t.u(q))) ++q; e = quoted(t, q, cs, ce); }
	basic_css_import<char> p; css(p, t, e, cs, ce);
}
SX_CASE(css_marks)
{
	alpha<char> t("", sx_bound(6, 7), "<!->"); size_t s = t.s; bool o = t.u(s) == '<' && t.u(s + 1) == '!' && t.u(s + 2) == '-' && t.u(s + 3) == '-', c = t.u(s) == '-' && t.u(s + 1) == '-' && t.u(s + 2) == '>';
	basic_css_cdo<char> po; basic_css_cdc<char> pc; sx_check(po.match(t.p, s, t.end) == o, "opening mark"); region_is(po, o, s, s + 4, "region"); sx_check(pc.match(t.p, s, t.end) == c, "closing mark"); region_is(pc, c, s, s + 3, "region"); if (o) sx_cover("open"); if (c) sx_cover("close");
}
