// @bounds every text of up to 7..8 (thorough 8..9) units over the syntax-relevant characters, starting with every kind of opening delimiter, terminated or limited by length, narrow and wide; attributes: composed texts of up to 3 attributes with every combination of name, white space, equals sign, value and quotes; media types: texts of up to 7 units and composed ones; every earlier use
// @outside longer texts
// @assume start <= min(end, length)
#include "parse.h"
template <class T> struct alpha {
	T* p; size_t n, s, end; T at[64];
	alpha(const char* prefix, size_t max, const char* alphabet)
	{
		s = sx_choose(2, "start"); if (s) at[0] = 'z'; n = s; for (; *prefix; ++prefix) at[n++] = T(*prefix);
		if (max) for (size_t m = sx_choose((uint32_t)max + 1, "length"); m--;) { uint8_t c = sx_u8("unit"); bool in = false; for (const char* a = alphabet; *a; ++a) in = in | (c == (uint8_t)*a); sx_assume(in); at[n++] = T((char)c); }
		bool z = sx_choose(2, "terminator"); p = new T[n + z]; for (size_t i = 0; i < n; ++i) p[i] = at[i]; if (z) p[n] = 0; end = z ? SIZE_MAX : n;
	}
	~alpha() { delete[] p; }
	uint32_t u(size_t i) const { return i < n ? (uint32_t)(typename std::make_unsigned<T>::type)at[i] : 0; }
	bool white(size_t i) const { uint32_t c = u(i); return c == ' ' || (c >= 9 && c <= 13); }
	size_t skip(size_t q) const { while (white(q)) ++q; return q; }
	bool is(size_t q, const char* t) const { for (; *t; ++t, ++q) if (u(q) != (uint32_t)*t) return false; return true; }
};
struct reg { size_t s = 1, e = 0; };
static bool eq(const interval<size_t>& i, reg r) { return r.s <= r.e ? i.start == r.s && i.end == r.e : !i; }
template <class T> static size_t ident(const alpha<T>& t, size_t q) { while (t.u(q) && t.u(q) != '>' && t.u(q) != '=' && !t.is(q, "/>") && !t.white(q)) ++q; return q; }
// the value at q: its content and its end
template <class T> static size_t value_at(const alpha<T>& t, size_t q, reg& c)
{
	uint32_t k = t.u(q); if (k == '"' || k == '\'') { c.s = ++q; while (t.u(q) != k) { if (!t.u(q)) return NONE; ++q; } c.e = q; return q + 1; }
	c.s = q; while (t.u(q) && t.u(q) != '>' && !t.is(q, "/>") && !t.white(q)) ++q; c.e = q; return q;
}
struct tag { html_sequence_t type; reg name; reg an[12], av[12]; size_t n = 0, e = NONE; };
template <class T> static bool read(const alpha<T>& t, tag& r)
{
	size_t q = t.s; if (t.u(q) != '<') return false;
	++q; if (!t.u(q)) return false;
	if (t.is(q, "!--")) { r.type = html_sequence_t::comment; r.name.s = q += 3; while (!t.is(q, "-->")) { if (!t.u(q)) return false; ++q; } r.name.e = q; r.e = q + 3; return true; }
	if (t.u(q) == '?') { r.type = html_sequence_t::instruction; r.name.s = ++q; for (;; ++q) { if (!t.u(q)) return false; if (t.u(q) == '>') { r.name.e = q; r.e = q + 1; return true; } if (t.is(q, "?>")) { r.name.e = q; r.e = q + 2; return true; } } }
	if (t.u(q) == '!') { r.type = html_sequence_t::declaration; ++q; r.name.s = r.name.e = q; }
	else if (t.u(q) == '/' && t.u(q + 1)) { r.type = html_sequence_t::element_end; r.name.s = q + 1; q = r.name.e = ident(t, q + 1); }
	else { r.type = html_sequence_t::element_start; r.name.s = q; q = r.name.e = ident(t, q); }
	for (q = t.skip(q);;) {
		if (!t.u(q)) return false;
		if (r.type == html_sequence_t::element_start && t.is(q, "/>")) { r.type = html_sequence_t::element; r.e = q + 2; return true; }
		if (t.u(q) == '>') { r.e = q + 1; return true; }
		if (r.type == html_sequence_t::declaration) {
			if (t.is(q, "!>")) { r.e = q + 2; return true; }
			if (t.is(q, "--")) { q += 2; while (!t.is(q, "--")) { if (!t.u(q)) return false; ++q; } q = t.skip(q + 2); continue; }
		}
		size_t e = ident(t, q); if (e == q && t.u(q) != '=') { ++q; continue; } // a lone slash
		r.an[r.n].s = q; r.an[r.n].e = e; q = t.skip(e);
		if (t.u(q) == '=') { q = t.skip(q + 1); reg c; size_t v = value_at(t, q, c); if (v != NONE) { r.av[r.n] = c; q = t.skip(v); } }
		++r.n;
	}
}
template <class T> static void compare(const alpha<T>& t)
{
	basic_html_tag<T> p; if (sx_choose(2, "used")) { p.type = html_sequence_t::comment; p.name.start = 0; p.name.end = 1; p.interval.start = 0; p.interval.end = 1; html_attribute a; a.name.start = 0; a.name.end = 1; p.attributes.push_back(a); }
	tag r; bool ok = read(t, r); sx_check(p.match(t.p, t.s, t.end) == ok, "matched exactly when complete"); region_is(p, ok, t.s, r.e, "region");
	if (ok) {
		sx_check(p.type == r.type, "kind"); sx_check(eq(p.name, r.name), "name"); sx_check(p.attributes.size() == r.n, "number of attributes");
		for (size_t i = 0; i < r.n; ++i) sx_check(eq(p.attributes[i].name, r.an[i]) && eq(p.attributes[i].value, r.av[i]), "attribute");
		sx_cover(r.type == html_sequence_t::element ? "element" : r.type == html_sequence_t::element_start ? "start" : r.type == html_sequence_t::element_end ? "end" : r.type == html_sequence_t::declaration ? "declaration" : r.type == html_sequence_t::comment ? "comment" : "instruction"); if (r.n > 1) sx_cover("two attributes");
	} else { sx_check(p.type == html_sequence_t::unknown && !p.name && p.attributes.empty(), "nothing"); sx_cover("none"); }
}
template <class T> static void tags(size_t q)
{
	switch (sx_choose(7, "opening")) {
	case 0: { alpha<T> t("", q, "</>!?-= a"); compare(t); break; }
	case 1: { alpha<T> t("<a", q, "/>= \"b"); compare(t); break; }
	case 2: { alpha<T> t("</", q, "/>= b"); compare(t); break; }
	case 3: { alpha<T> t("<!", q, "!>-= b"); compare(t); break; }
	case 4: { alpha<T> t("<!--", q, "->b!"); compare(t); break; }
	case 5: { alpha<T> t("<?", q, "?>b"); compare(t); break; }
	default: { alpha<T> t("<a b='", q, "'>\" "); compare(t); }
	}
}
SX_CASE(tags_char) { tags<char>(sx_bound(6, 8)); }
SX_CASE(T_tags_wide) { tags<wchar_t>(6); }
SX_CASE(any_unit) { alpha<char> t("<", 0, ""); char* s = new char[4]; s[0] = '<'; for (int i = 1; i < 4; ++i) { s[i] = (char)sx_u8("unit"); sx_assume(s[i] != 0); } memcpy(t.at, s, 4); t.n = 4; t.s = 0; t.end = 4; delete[] t.p; t.p = s; compare(t); }
SX_CASE(attributes)
{
	static const char* const sp[] = { "", " ", "\n\t" }; static const char* const names[] = { "x", "", "data-x", "/" }; static const char* const vals[] = { "", "v", "\"a>b\"", "'/>'", "\"", "a/b" };
	char b[64]; size_t n = 0; auto add = [&](const char* s) { while (*s) b[n++] = *s++; };
	add(sx_choose(2, "end tag") ? "</t" : "<t");
	for (unsigned i = 0, m = sx_choose(sx_bound(3, 4), "attributes"); i < m; ++i) { add(i ? " " : sp[sx_choose(3, "space")]); add(names[sx_choose(i > 1 ? 1 : 4, "name")]); if (i < 2) add(sp[sx_choose(2, "space")]); if (sx_choose(2, "equals")) { add("="); if (!i) add(sp[sx_choose(3, "space")]); } add(vals[sx_choose(6, "value")]); }
	add(sx_choose(2, "close") ? "/>" : sx_choose(2, "open") ? "" : ">"); b[n] = 0; alpha<char> t(b, 0, ""); compare(t);
}
SX_CASE(parts)
{
	alpha<char> t("", sx_bound(6, 7), "/>= \"a'"); size_t e = ident(t, t.s); basic_html_ident<char> i; bool ok = e > t.s || t.u(t.s); sx_check(i.match(t.p, t.s, t.end) == ok, "identifier"); region_is(i, ok, t.s, e, "identifier");
	basic_html_value<char> v; v.content.start = 0; v.content.end = 1; reg c; size_t q = value_at(t, t.s, c); sx_check(v.match(t.p, t.s, t.end) == (q != NONE), "value"); region_is(v, q != NONE, t.s, q, "value"); if (q == NONE) c = reg(); sx_check(eq(v.content, c), "content of the value"); sx_cover(q != NONE ? "value" : "no value");
}
SX_CASE(conditions)
{
	alpha<char> t(sx_choose(2, "prefix") ? "<![" : "", sx_bound(6, 7), "<![]> a"); size_t s = t.s, q = s + 3; reg c; size_t e = NONE;
	if (t.is(s, "<![")) { q = t.skip(q); c.s = c.e = q; for (; t.u(q); ++q) { if (t.u(q) == '[') { e = q + 1; break; } if (!t.white(q)) c.e = q + 1; } }
	basic_html_declaration_condition_start<char> p; p.condition.start = 0; p.condition.end = 1; sx_check(p.match(t.p, s, t.end) == (e != NONE), "condition"); region_is(p, e != NONE, s, e, "region"); if (e == NONE) c = reg(); sx_check(eq(p.condition, c), "condition"); if (e != NONE) sx_cover("start");
	basic_html_declaration_condition_end<char> z; bool end = t.is(s, "]]>"); sx_check(z.match(t.p, s, t.end) == end, "end"); region_is(z, end, s, s + 3, "end"); if (end) sx_cover("end");
}
template <class T> static void mime(const alpha<T>& t)
{
	basic_mime_type<T> p; if (sx_choose(2, "used")) for (auto* i : { &p.base_type, &p.sub_type, &p.charset, &p.interval }) i->start = 0, i->end = 1;
	size_t q = t.s; reg b, s, c; auto part = [&](reg& r) { r.s = q; while (t.u(q) && t.u(q) != '/' && t.u(q) != ';' && !t.white(q)) ++q; r.e = q; return r.e > r.s; };
	bool ok = part(b) && t.u(q) == '/' && (++q, part(s));
	if (ok && t.u(q) == ';') {
		q = t.skip(q + 1); const char* k = "charset="; bool has = true; for (size_t i = 0; i < 8; ++i) { uint32_t x = t.u(q + i); if (x >= 'A' && x <= 'Z') x += 32; if (x != (uint32_t)k[i]) has = false; }
		if (has) { q += 8; uint32_t d = t.u(q); if (d == '"' || d == '\'') { ++q; size_t b2 = q; while (t.u(q) && t.u(q) != d) ++q; if (t.u(q)) { c.s = b2; c.e = q++; } } else { c.s = q; while (t.u(q) && !t.white(q)) ++q; c.e = q; } }
	}
	sx_check(p.match(t.p, t.s, t.end) == ok, "media type"); region_is(p, ok, t.s, q, "region"); if (!ok) b = s = c = reg();
	sx_check(eq(p.base_type, b) && eq(p.sub_type, s), "types"); sx_check(eq(p.charset, c), "charset"); sx_cover(!ok ? "none" : c.s <= c.e ? "charset" : "type");
}
SX_CASE(mime_type)
{
	switch (sx_choose(4, "prefix")) {
	case 0: { alpha<char> t("", sx_bound(7, 8), "a/; "); mime(t); break; }
	case 1: { alpha<char> t("t/h;charset=", sx_bound(5, 6), "a\"' ;"); mime(t); break; }
	case 2: { alpha<char> t("t/h; CharSet", sx_bound(4, 5), "=a\" "); mime(t); break; }
	default: { alpha<wchar_t> t("t/h; chars", 4, "et=a"); mime(t); }
	}
}
