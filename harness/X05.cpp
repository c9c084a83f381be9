// @bounds line breaks, white space, text characters, tokens, quoted strings, URL parts, headers: every text of up to 4..5 (thorough 6) arbitrary units; values, parameters, cookies, media types, languages, agents, protocols, URLs, headers, request lines: every text of up to 7..9 (thorough 8..10) units over the characters relevant to each, plus composed texts with every combination of present, missing, quoted and unquoted parts and white space or folded line ends between them; weights: up to 3 arbitrary digits, and 25 fixed ones; lists of 3 weighted languages with arbitrary places of white space; terminated or limited by length; every earlier use
// @outside longer texts
// @assume start <= min(end, length)
#include "parse.h"
static const char* S; static size_t N;
// --- a definition-level reader: each function gives the end of the part at p, or NONE
static int u(size_t p) { return p < N ? (unsigned char)S[p] : -1; }
static bool white(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static size_t lend(size_t p) { return u(p) == '\n' ? p + 1 : u(p) == '\r' && u(p + 1) == '\n' ? p + 2 : NONE; }
static size_t lws(size_t p)
{
	size_t q = lend(p); if (q == NONE) q = p;
	size_t r = q; while (white(u(r)) && lend(r) == NONE) ++r;
	return r > q ? r : NONE;
}
static size_t lwss(size_t p) { for (size_t q; (q = lws(p)) != NONE;) p = q; return p; }
static bool tokc(int c)
{
	switch (c) { case '(': case ')': case '<': case '>': case '@': case ',': case ';': case ':': case '\\': case '"': case '/': case '[': case ']': case '?': case '=': case '{': case '}': case 0x7f: return false; }
	return c > 0x20;
}
static size_t tok_at(size_t p) { size_t q = p; while (tokc(u(q))) ++q; return q > p ? q : NONE; }
static size_t quoted(size_t p)
{
	if (u(p) != '"') return NONE;
	for (++p;;) {
		int c = u(p);
		if (c <= 0) return NONE;
		if (c == '"') return p + 1;
		if (c == '\\') { if (u(p + 1) <= 0) return NONE; p += 2; }
		else if (c >= 0x20 || lws(p) != NONE) ++p;
		else return NONE;
	}
}
static size_t val_at(size_t p) { size_t q = quoted(p); return q != NONE ? q : tok_at(p); }
static bool is_value(const http_value& v, size_t p, size_t e)
{
	if (u(p) == '"') return at(v, p, e) && at(v.string, p, e) && v.string.content.start == p + 1 && v.string.content.end == e - 1 && !v.token.interval;
	return at(v, p, e) && at(v.token, p, e) && !v.string.interval;
}
static bool no_value(const http_value& v) { return !v.interval && !v.token.interval && !v.string.interval; }
// name = value
struct pair_ { size_t ne = NONE, vs = NONE, ve = NONE; };
static pair_ pair_at(size_t p)
{
	pair_ r; size_t q = tok_at(p); if (q == NONE) return r;
	size_t e = lwss(q); if (u(e) != '=') return r;
	e = lwss(e + 1); size_t v = val_at(e); if (v == NONE) return r;
	r.ne = q; r.vs = e; r.ve = v; return r;
}
static bool span(const interval<size_t>& i, size_t s, size_t e) { return i.start == s && i.end == e; }
// --- texts
static char* mem;
static bool Z; // ends at a terminator
static void finish(const char* b, size_t n) { Z = sx_choose(2, "terminator"); mem = new char[n + Z]; memcpy(mem, b, n); if (Z) mem[n] = 0; S = mem; N = n; }
static void alpha(size_t max, const char* alphabet) // every text over an alphabet, or over all units
{
	char b[16]; size_t n = sx_choose((uint32_t)max + 1, "length");
	for (size_t i = 0; i < n; ++i) {
		uint8_t c = sx_u8("unit"); bool in = !alphabet;
		if (alphabet) for (const char* a = alphabet; *a; ++a) in = in | (c == (uint8_t)*a); else in = c != 0;
		sx_assume(in); b[i] = (char)c;
	}
	finish(b, n);
}
static size_t End() { return Z ? SIZE_MAX : N; }
static size_t START() { return N && sx_choose(2, "start"); }
struct build { char b[128]; size_t n = 0; void add(const char* s) { while (*s) b[n++] = *s++; } void pick(const char* const* l, unsigned k, const char* name) { add(l[sx_choose(k, name)]); } };
// --- leaves
template <class P> static void leaf(P& p, size_t want, size_t start, bool used)
{
	if (used) { p.interval.start = 0; p.interval.end = 1; }
	bool r = p.match(S, start, End()); sx_check(r == (want != NONE), "matched exactly when the part is there"); region_is(p, r, start, want, "region");
	if (r) sx_cover("match"); else sx_cover("no match");
}
SX_CASE(leaves)
{
	unsigned k = sx_choose(6, "parser"); alpha(sx_bound(5, 6), nullptr); size_t s = START(); bool used = sx_choose(2, "used");
	switch (k) {
	case 0: { http_line_break p; p.match(S, s, End()); leaf(p, lend(s), s, used); break; }
	case 1: { http_space p; leaf(p, lws(s), s, used); break; }
	case 2: { http_text_char p; leaf(p, lws(s) != NONE ? lws(s) : u(s) >= 0x20 ? s + 1 : NONE, s, used); break; }
	case 3: { http_token p; leaf(p, tok_at(s), s, used); break; }
	case 4: { http_any_type p; leaf(p, u(s) == '*' ? u(s + 1) == '/' && u(s + 2) == '*' ? s + 3 : s + 1 : NONE, s, used); break; }
	case 5: { http_asterisk p; leaf(p, u(s) == '*' ? s + 1 : NONE, s, used); break; }
	}
	delete[] mem;
}
SX_CASE(quoted_string)
{
	bool full = sx_choose(2, "alphabet"); alpha(full ? 4 : sx_bound(7, 8), full ? nullptr : "\"\\a\r\n \x01\xc4"); size_t s = START(); http_quoted_string p;
	if (sx_choose(2, "used")) sx_check(p.match("\"x\"", 0, 3), "earlier match");
	size_t q = quoted(s); leaf(p, q, s, false);
	if (q != NONE) sx_check(span(p.content, s + 1, q - 1), "content"); else sx_check(!p.content, "no content");
	delete[] mem;
}
SX_CASE(url_parts)
{
	unsigned k = sx_choose(4, "parser"); alpha(sx_bound(5, 6), nullptr); size_t s = START(), q = s;
	auto other = [&](size_t p, const char* stop) { int c = u(p); if (c <= 0x20 || c == 0x7f) return false; for (; *stop; ++stop) if (c == *stop) return false; return true; };
	switch (k) {
	case 0: { http_url_server p; while (other(q, ":/")) ++q; leaf(p, q > s ? q : NONE, s, sx_choose(2, "used")); break; }
	case 1: { http_url_path_segment p; while (other(q, "?/")) ++q; leaf(p, q, s, sx_choose(2, "used")); break; }
	case 2: {
		http_url_path p; if (sx_choose(2, "used")) sx_check(p.match("/a/b/c", 0, 6) && p.segments.size() == 3, "earlier match");
		size_t seg[8][2], n = 0; while (u(q) == '/') { seg[n][0] = ++q; while (other(q, "?/")) ++q; seg[n++][1] = q; }
		leaf(p, n ? q : NONE, s, false); sx_check(p.segments.size() == n, "segments"); for (size_t i = 0; i < n; ++i) sx_check(at(p.segments[i], seg[i][0], seg[i][1]), "region of a segment"); break;
	}
	case 3: {
		http_url_parameter p; if (sx_choose(2, "used")) sx_check(p.match("a=b", 0, 3), "earlier match");
		while (other(q, "&=")) ++q; size_t ne = q, vs = NONE; if (u(q) == '=') { vs = ++q; while (other(q, "&")) ++q; }
		bool ok = ne > s; leaf(p, ok ? q : NONE, s, false);
		if (ok) { sx_check(span(p.name, s, ne), "name"); if (vs != NONE) sx_check(span(p.value, vs, q), "value"); else sx_check(!p.value, "no value"); } else sx_check(!p.name && !p.value, "nothing");
		break;
	}
	}
	delete[] mem;
}
SX_CASE(url_port)
{
	char b[8]; size_t n = sx_choose(7, "length"); for (size_t i = 0; i < n; ++i) b[i] = '6'; 
	size_t k = n ? sx_choose((uint32_t)n, "place") : 0; if (n) b[k] = (char)sx_u8("unit");
	if (n > 1) b[n - 1] = (char)('0' + sx_range(0, 9, "digit"));
	finish(b, n); http_url_port p; if (sx_choose(2, "used")) sx_check(p.match("81", 0, 2) && p.value == 81, "earlier match");
	size_t q = 0; uint64_t v = 0; bool over = false; while (u(q) >= '0' && u(q) <= '9') { v = v * 10 + (u(q) - '0'); over = over | (v > 65535); ++q; }
	bool r = p.match(S, 0, End()); sx_check(r == (q > 0 && !over), "number of a port"); region_is(p, r, 0, q, "region"); sx_check(p.value == (r ? v : 0), "value"); sx_cover(r ? "port" : over ? "too big" : "none");
	delete[] mem;
}
SX_CASE(language)
{
	alpha(sx_bound(7, 8), "aZ-5 \xc4"); size_t s = START(), q = s, n = 0, e = NONE, c[8][2]; http_language p; if (sx_choose(2, "used")) sx_check(p.match("en-gb", 0, 5) && p.components.size() == 2, "earlier match");
	for (;;) { size_t b = q; while ((u(q) | 0x20) >= 'a' && (u(q) | 0x20) <= 'z' && u(q) > 0) ++q; if (q == b) break; c[n][0] = b; c[n++][1] = e = q; if (u(q) != '-') break; ++q; }
	leaf(p, e, s, false); sx_check(p.components.size() == n, "components"); for (size_t i = 0; i < n; ++i) sx_check(span(p.components[i], c[i][0], c[i][1]), "region of a component");
	delete[] mem;
}
// --- composites
static void check_value(size_t s)
{
	http_value p; if (sx_choose(2, "used")) sx_check(sx_choose(2, "kind") ? p.match("\"x\"", 0, 3) : p.match("x", 0, 1), "earlier match");
	size_t q = val_at(s); leaf(p, q, s, false); if (q != NONE) sx_check(is_value(p, s, q), "value"); else sx_check(no_value(p), "no value");
}
static void check_param(size_t s)
{
	http_parameter p; if (sx_choose(2, "used")) sx_check(p.match("x=y", 0, 3), "earlier match");
	pair_ r = pair_at(s); leaf(p, r.ve, s, false);
	if (r.ve != NONE) sx_check(at(p.name, s, r.ne) && is_value(p.value, r.vs, r.ve), "name and value"); else sx_check(!p.name.interval && no_value(p.value), "nothing");
}
static void check_cookie(size_t s)
{
	http_cookie p; if (sx_choose(2, "used")) sx_check(p.match("x=y;$a=b", 0, 8) && p.params.size() == 1, "earlier match");
	pair_ r = pair_at(s), c[4]; size_t n = 0, q = r.ve, e = r.ve, cs[4];
	if (r.ve != NONE) for (;;) { q = lwss(q); if (u(q) != ';') break; q = lwss(q + 1); if (u(q) != '$') break; pair_ x = pair_at(q + 1); if (x.ve == NONE) break; cs[n] = q; c[n++] = x; e = q = x.ve; }
	leaf(p, e, s, false);
	if (r.ve != NONE) {
		sx_check(at(p.name, s, r.ne) && is_value(p.value, r.vs, r.ve), "name and value"); sx_check(p.params.size() == n, "parameters");
		size_t i = 0; for (auto& x : p.params) { sx_check(at(x, cs[i], c[i].ve) && at(x.name, cs[i] + 1, c[i].ne) && is_value(x.value, c[i].vs, c[i].ve), "parameter"); ++i; }
		if (n > 1) sx_cover("two parameters");
	} else sx_check(!p.name.interval && no_value(p.value) && p.params.empty(), "nothing");
}
static void check_cookie_param(size_t s)
{
	http_cookie_parameter p; if (sx_choose(2, "used")) sx_check(p.match("$x=y", 0, 4), "earlier match");
	pair_ r; if (u(s) == '$') r = pair_at(s + 1); leaf(p, r.ve, s, false);
	if (r.ve != NONE) sx_check(at(p.name, s + 1, r.ne) && is_value(p.value, r.vs, r.ve), "name and value"); else sx_check(!p.name.interval && no_value(p.value), "nothing");
}
static size_t range_at(size_t s, size_t& te, size_t& ss) { te = tok_at(s); if (te == NONE) return NONE; size_t q = lwss(te); if (u(q) != '/') return NONE; ss = lwss(q + 1); return tok_at(ss); }
static void check_media(size_t s)
{
	http_media_type p; if (sx_choose(2, "used")) sx_check(p.match("x/y;a=b", 0, 7) && p.params.size() == 1, "earlier match");
	size_t te = 0, ss = 0, se = range_at(s, te, ss), e = se, q = se, n = 0, cs[4]; pair_ c[4];
	if (se != NONE) for (;;) { q = lwss(q); if (u(q) != ';') break; q = lwss(q + 1); pair_ x = pair_at(q); if (x.ve == NONE) break; cs[n] = q; c[n++] = x; e = q = x.ve; }
	leaf(p, e, s, false);
	http_media_range g; bool r = g.match(S, s, End()); sx_check(r == (se != NONE), "range"); region_is(g, r, s, se, "range");
	if (se != NONE) {
		sx_check(at(p.type, s, te) && at(p.subtype, ss, se) && at(g.type, s, te) && at(g.subtype, ss, se), "type and subtype"); sx_check(p.params.size() == n, "parameters");
		size_t i = 0; for (auto& x : p.params) { sx_check(at(x, cs[i], c[i].ve) && at(x.name, cs[i], c[i].ne) && is_value(x.value, c[i].vs, c[i].ve), "parameter"); ++i; }
		if (n > 1) sx_cover("two parameters");
	} else sx_check(!p.type.interval && !p.subtype.interval && p.params.empty() && !g.type.interval, "nothing");
}
SX_CASE(short_values)
{
	unsigned k = sx_choose(5, "parser"); size_t m = sx_bound(7, 9);
	switch (k) {
	case 0: alpha(m, "a\"\\ ;"); check_value(START()); break;
	case 1: alpha(m, "a= \r\n\""); check_param(START()); break;
	case 2: alpha(m, "a= ;$"); check_cookie(START()); break;
	case 3: alpha(m, "$a= ;"); check_cookie_param(START()); break;
	default: alpha(m, "a/ ;=\n"); check_media(START());
	}
	delete[] mem;
}
static const char* const ws[] = { "", " ", "\r\n ", " \n\t", " \r\n", "\r\n\r\n " };
static const char* const val[] = { "", "b", "\"b;\\\" c\"", "\"b", "\"\xc4\r\n b\"" };
static const char* const nm[] = { "", "ab", "a(", "\xc4" };
SX_CASE(composed)
{
	unsigned k = sx_choose(2, "parser"), n = sx_choose(3, "parameters"); build t;
	if (n) { if (k == 0) { t.add("ab="); t.pick(val, 3, "value"); } else t.add("ab/c"); }
	else if (k == 0) { t.pick(nm, 4, "name"); t.pick(ws, 6, "space"); t.add("="); t.pick(ws, 6, "space"); t.pick(val, 5, "value"); }
	else { t.pick(nm, 2, "type"); t.pick(ws, 6, "space"); t.add(sx_choose(2, "slash") ? "/" : "x"); t.pick(ws, 6, "space"); t.pick(nm, 4, "subtype"); }
	for (unsigned i = 0; i < n; ++i) {
		t.pick(ws, i ? 2 : 6, "space"); t.add(";"); t.pick(ws, i ? 1 : 6, "space"); if (!k) t.add(sx_choose(2, "dollar") ? "$" : "");
		t.pick(nm, i ? 1 : 2, "parameter"); t.add("c"); t.add(sx_choose(2, "equals") ? "= " : ""); t.pick(val, i ? 3 : 4, "parameter value");
	}
	finish(t.b, t.n); if (k == 0) { check_cookie(0); if (!n) check_param(0); } else check_media(0);
	delete[] mem;
}
// --- weights
SX_CASE(weight)
{
	char b[32]; size_t n = 0; unsigned form = sx_choose(7, "form"); double v = 1; bool ok = true; size_t e;
	auto d = [&] { unsigned x = sx_choose(10, "digit"); b[n++] = char('0' + x); return x; };
	switch (form) {
	case 0: v = d(); e = n; break;
	case 1: { unsigned a = d(); b[n++] = '.'; e = n; v = a; break; }
	case 2: { unsigned a = d(); b[n++] = '.'; unsigned x = d(); v = a + x / 10.; e = n; break; }
	case 3: { b[n++] = '.'; unsigned x = d(), y = d(); v = (x * 10 + y) / 100.; e = n; break; }
	case 4: { b[n++] = '0'; b[n++] = '.'; for (int i = 0; i < 25; ++i) b[n++] = '5'; e = n; v = 0.5555555; break; }
	case 5: ok = false; b[n++] = '.'; e = 0; break;
	default: ok = false; e = 0; break;
	}
	if (sx_choose(2, "more")) b[n++] = 'x';
	finish(b, n); http_weight p; if (sx_choose(2, "used")) sx_check(p.match("0.5", 0, 3) && p.value == 0.5f, "earlier match");
	leaf(p, ok ? e : NONE, 0, false); float want = (float)v; if (form == 4) sx_check(p.value > 0.5555f && p.value < 0.5556f, "value"); else sx_check(p.value == want, "value");
	delete[] mem;
}
struct weighted { size_t vs, ve, e; double f; bool has, star; };
static bool weighted_at(size_t s, weighted& w)
{
	w.vs = s; w.has = false; w.f = 1; w.star = u(s) == '*';
	if (w.star) w.ve = s + 1; else { size_t q = s; while (u(q) >= 'a' && u(q) <= 'z') ++q; if (q == s) return false; w.ve = q; }
	size_t q = w.ve; auto skip = [&] { while (white(u(q))) ++q; };
	w.e = w.ve; skip(); if (u(q) != ';') return true;
	++q; skip(); if (u(q) != 'q' && u(q) != 'Q') return true;
	++q; skip(); if (u(q) != '=') return true;
	++q; skip(); double f = 0, m = 1; bool dot = false, dig = false; for (;; ++q) { if (u(q) == '.' && !dot) dot = true; else if (u(q) >= '0' && u(q) <= '9') { dig = true; f = f * 10 + (u(q) - '0'); if (dot) m *= 10; } else break; }
	if (dig) { w.has = true; w.f = f / m; w.e = q; }
	return true;
}
typedef http_weighted_value<http_language> wlang;
static const char* const wt[] = { "", ";q=0.5", " ; Q = 1", ";q=", ";x=1", ";q", ";q=0", "; q=.25" };
static const char* const sep[] = { ",", ", ", " , ", " ", ",," };
SX_CASE(weighted_value)
{
	build t; t.pick((const char* const[]){ "en", "*", "", "?" }, 4, "value"); t.pick(wt, 8, "weight"); t.pick(sep, 3, "more"); finish(t.b, t.n);
	wlang p; if (sx_choose(2, "used")) sx_check(sx_choose(2, "kind") ? p.match("en;q=0.75", 0, 9) : p.match("*;q=0.75", 0, 8), "earlier match");
	weighted w; bool ok = weighted_at(0, w); bool r = p.match(S, 0, End()); sx_check(r == ok, "value"); region_is(p, ok, 0, w.e, "region");
	if (ok) { if (w.star) sx_check(at(p.asterisk, 0, 1) && !p.value.interval, "asterisk"); else sx_check(at(p.value, 0, w.ve) && !p.asterisk.interval, "value"); sx_check(p.factor.value == (float)w.f && !!p.factor.interval == w.has, "weight"); sx_cover(w.has ? "weight" : "no weight"); }
	else { sx_check(!p.asterisk.interval && !p.value.interval && !p.factor.interval && p.factor.value == 1, "nothing"); sx_cover("none"); }
	delete[] mem;
}
SX_CASE(weighted_list)
{
	build t; unsigned n = sx_choose(4, "elements"); if (sx_choose(2, "lead")) t.add(" ");
	for (unsigned i = 0; i < n; ++i) { t.add(i == 0 ? "a" : i == 1 ? "bb" : "*"); t.pick(wt, i == 2 ? 3 : 8, "weight"); if (i + 1 < n || sx_choose(2, "tail")) t.pick(sep, 5, "separator"); }
	finish(t.b, t.n); size_t s = 0;
	http_weighted_collection<wlang> c; c.insert(S, s, End());
	// every element in the order of the text
	weighted w[8]; unsigned m = 0; size_t q = 0;
	for (;;) { while (white(u(q))) ++q; if (u(q) == ',') { ++q; while (white(u(q))) ++q; } if (q >= N || !weighted_at(q, w[m])) break; q = w[m].e; ++m; }
	sx_check(c.size() == m, "every element of the list");
	double last = 1e9; size_t lastp = 0; bool seen[8] = {};
	for (auto& x : c) {
		sx_check(x.factor.value <= last, "falling weights"); if (x.factor.value == last) sx_check(x.interval.start > lastp, "same weights in order of the text"); last = x.factor.value; lastp = x.interval.start;
		bool f = false; for (unsigned i = 0; i < m; ++i) if (!seen[i] && at(x, w[i].vs, w[i].e) && x.factor.value == (float)w[i].f && !!x.asterisk.interval == w[i].star) { seen[i] = f = true; break; }
		sx_check(f, "element of the text");
	}
	if (m > 2) sx_cover("three");
	delete[] mem;
}
// --- agent, protocol, URL, request, header
SX_CASE(agent)
{
	alpha(sx_bound(8, 10), "a/ \n\xc4"); size_t s = START(), q = s; http_agent p; if (sx_choose(2, "used")) sx_check(p.match("x/1", 0, 3), "earlier match");
	while (u(q) > 0 && !white(u(q)) && u(q) != '/') ++q;
	size_t te = q, vs = NONE; if (u(q) == '/') { vs = ++q; while (u(q) > 0 && !white(u(q))) ++q; }
	leaf(p, q > s ? q : NONE, s, false); if (q > s) { sx_check(span(p.type, s, te), "type"); if (vs != NONE) sx_check(span(p.version, vs, q), "version"); else sx_check(!p.version, "no version"); } else sx_check(!p.type && !p.version, "nothing");
	delete[] mem;
}
struct proto { size_t te, ms, me, ns, ne, e; uint64_t maj, mn; };
static bool proto_at(size_t s, proto& r)
{
	auto digits = [&](size_t p, size_t e) { uint64_t v = 0; for (; p < e && u(p) >= '0' && u(p) <= '9'; ++p) v = v * 10 + (u(p) - '0'); return v; };
	size_t q = s; while (u(q) > 0 && !white(u(q)) && u(q) != '/') ++q; if (u(q) != '/') return false;
	r.te = q; r.ms = ++q; while (u(q) > 0 && !white(u(q)) && u(q) != '.') ++q; r.me = q; r.maj = digits(r.ms, r.me); r.ns = 1; r.ne = 0; r.mn = 0;
	if (u(q) == '.') { r.ns = ++q; while (u(q) > 0 && !white(u(q))) ++q; r.ne = q; r.mn = digits(r.ns, r.ne); }
	r.e = q; return u(q) > 0; // followed by white space
}
static bool is_proto(const http_protocol& p, size_t s, const proto& r) { return at(p, s, r.e) && span(p.type, s, r.te) && span(p.version_maj, r.ms, r.me) && span(p.version_min, r.ns, r.ne) && p.version == ((r.maj * 0x100 + r.mn) & 0xffff); }
static bool no_proto(const http_protocol& p) { return !p.interval && !p.type && !p.version_maj && !p.version_min && p.version == 0x009; }
SX_CASE(protocol)
{
	alpha(sx_bound(8, 10), "H/1.0 \n"); size_t s = START(); http_protocol p; if (sx_choose(2, "used")) sx_check(p.match("x/1.2 ", 0, 6) && p.version == 0x102, "earlier match");
	proto r; bool ok = proto_at(s, r); sx_check(p.match(S, s, End()) == ok, "protocol"); if (ok) { sx_check(is_proto(p, s, r), "parts"); sx_cover(r.ns == 1 ? "major" : "minor"); } else { sx_check(no_proto(p), "nothing"); sx_cover("none"); }
	delete[] mem;
}
struct url_ { size_t ss = NONE, se = NONE, ps = NONE, pe = NONE, path = NONE, pathe = NONE, e = NONE; uint64_t port = 80; size_t n = 0, ns[8], ne[8], vs[8], ve[8]; };
static bool url_at(size_t s, url_& r)
{
	auto other = [&](size_t p, const char* stop) { int c = u(p); if (c <= 0x20 || c == 0x7f) return false; for (; *stop; ++stop) if (c == *stop) return false; return true; };
	size_t q = s; const char* h = "http://"; bool abs = true; for (size_t i = 0; i < 7; ++i) { int c = u(s + i); if (c >= 'A' && c <= 'Z') c += 32; if (c != h[i]) abs = false; }
	if (abs) {
		r.ss = q += 7; while (other(q, ":/")) ++q; r.se = q; if (r.ss == q) return false;
		if (u(q) == ':') { ++q; size_t p = q; uint64_t v = 0; while (u(q) >= '0' && u(q) <= '9') { v = v * 10 + (u(q) - '0'); if (v > 65535) return false; ++q; } if (q > p) r.ps = p, r.pe = q, r.port = v; }
	}
	r.path = q; if (u(q) != '/') return false; while (u(q) == '/') { ++q; while (other(q, "?/")) ++q; } r.pathe = q;
	if (u(q) == '?') {
		++q;
		for (;;) {
			if (!other(q, "")) break;
			if (u(q) == '&') { ++q; continue; }
			size_t b = q; while (other(q, "&=")) ++q; if (q == b) break;
			r.ns[r.n] = b; r.ne[r.n] = q; r.vs[r.n] = 1; r.ve[r.n] = 0; if (u(q) == '=') { r.vs[r.n] = ++q; while (other(q, "&")) ++q; r.ve[r.n] = q; } ++r.n;
		}
	}
	r.e = q; return true;
}
static void is_url(const http_url& p, size_t s, const url_& r)
{
	sx_check(at(p, s, r.e), "region of the URL"); region_is(p.server, r.ss != NONE, r.ss, r.se, "server"); region_is(p.port, r.ps != NONE, r.ps, r.pe, "port"); sx_check(p.port.value == r.port, "port"); sx_check(at(p.path, r.path, r.pathe), "path");
	sx_check(p.params.size() == r.n, "parameters"); size_t i = 0; for (auto& x : p.params) { sx_check(span(x.name, r.ns[i], r.ne[i]) && span(x.value, r.vs[i], r.ve[i]), "parameter"); ++i; }
}
static void no_url(const http_url& p) { sx_check(!p.interval && !p.server.interval && !p.port.interval && !p.path.interval && p.path.segments.empty() && p.params.empty(), "nothing"); }
static void check_url(size_t s)
{
	http_url p; if (sx_choose(2, "used")) sx_check(p.match("http://a:81/b?c=d", 0, 17) && p.params.size() == 1, "earlier match");
	url_ r; bool ok = url_at(s, r); sx_check(p.match(S, s, End()) == ok, "URL"); if (ok) { is_url(p, s, r); sx_cover("url"); if (r.n > 1) sx_cover("parameters"); } else { no_url(p); sx_cover("none"); }
}
SX_CASE(url_short) { alpha(sx_bound(8, 10), "/a?&= "); check_url(START()); delete[] mem; }
SX_CASE(url_long)
{
	build t; t.pick((const char* const[]){ "http://", "HTTP://", "http:/", "httpx://" }, 4, "scheme"); t.pick((const char* const[]){ "s", "", "a.b" }, 3, "server"); t.pick((const char* const[]){ "", ":", ":8080", ":65536", ":8x" }, 5, "port");
	t.pick((const char* const[]){ "/", "", "/a/b/", " " }, 4, "path"); t.pick((const char* const[]){ "", "?", "?a", "?a=b&c&&d=", "?=a" }, 5, "query"); t.pick((const char* const[]){ "", " x", "\r\n" }, 3, "more"); finish(t.b, t.n); check_url(0); delete[] mem;
}
static void check_request(size_t s)
{
	http_request p; if (sx_choose(2, "used")) sx_check(p.match("GET http://a:81/b?c=d HTTP/1.1\n", 0, 31) && p.protocol.version == 0x101, "earlier match");
	size_t q = s, vs, ve = 0, us = 0; url_ r; proto pr; bool ok = false, hp = false; size_t ps = 0;
	auto blanks = [&] { while (white(u(q)) && lend(q) == NONE) ++q; };
	blanks(); vs = q; while (u(q) > 0 && !white(u(q))) ++q; ve = q;
	if (ve > vs && white(u(q)) && lend(q) == NONE) { blanks(); us = q; if (u(q) > 0 && !white(u(q)) && url_at(q, r)) {
		ok = true; q = r.e; blanks();
		if (lend(q) != NONE) q = lend(q);
		else if (u(q) > 0 && proto_at(q, pr)) { hp = true; ps = q; q = pr.e; while (u(q) > 0 && lend(q) == NONE) ++q; if (lend(q) != NONE) q = lend(q); }
	} }
	sx_check(p.match(S, s, End()) == ok, "verb and URL");
	if (ok) { sx_check(at(p, s, q), "region of the request line"); sx_check(span(p.verb, vs, ve), "verb"); is_url(p.url, us, r); if (hp) sx_check(is_proto(p.protocol, ps, pr), "protocol"); else sx_check(no_proto(p.protocol), "no protocol"); sx_cover(hp ? "protocol" : "request"); }
	else { sx_check(!p.interval && !p.verb && no_proto(p.protocol), "nothing"); no_url(p.url); sx_cover("none"); }
}
SX_CASE(request_short) { alpha(sx_bound(9, 10), "/a \n\r"); check_request(START()); delete[] mem; }
SX_CASE(request_long)
{
	build t; t.pick(ws, 4, "space"); t.pick((const char* const[]){ "GET", "" }, 2, "verb"); t.pick((const char* const[]){ " ", "", "\t ", "\n ", " \r\n " }, 5, "space"); t.pick((const char* const[]){ "/", "http://a/b?c", "", "x" }, 4, "url");
	t.pick((const char* const[]){ " ", "", "  ", "\r\n", " \n" }, 5, "space"); t.pick((const char* const[]){ "HTTP/1.1", "", "HTTP/2", "HTTP", "HTTP/1.0 x" }, 5, "protocol"); t.pick((const char* const[]){ "\r\n", "", "\n", " \r\nA" }, 4, "end"); finish(t.b, t.n); check_request(0); delete[] mem;
}
static void check_header(size_t s)
{
	http_header p; if (sx_choose(2, "used")) sx_check(p.match("a: b\n", 0, 5), "earlier match");
	size_t q = s, ne; bool ok = false; size_t vs = NONE, ve = 0;
	while (u(q) > 0 && !white(u(q)) && u(q) != ':') ++q; ne = q;
	while (white(u(q)) && lend(q) == NONE) ++q;
	if (ne > s && u(q) == ':') {
		ok = true; ++q;
		for (;;) {
			size_t l = lend(q);
			if (l != NONE) { q = l; if (white(u(q)) && lend(q) == NONE) { ++q; continue; } break; }
			if (u(q) <= 0) break;
			if (!white(u(q))) { if (vs == NONE) vs = q; ve = q + 1; }
			++q;
		}
	}
	sx_check(p.match(S, s, End()) == ok, "header");
	if (ok) { sx_check(at(p, s, q), "region"); sx_check(span(p.name, s, ne), "name"); if (vs != NONE) sx_check(span(p.value, vs, ve), "value without outer white space"); else sx_check(!p.value, "no value"); sx_cover(vs != NONE ? "value" : "empty"); }
	else { sx_check(!p.interval && !p.name && !p.value, "nothing"); sx_cover("none"); }
}
SX_CASE(header) { alpha(sx_bound(8, 10), "a: \n\r"); check_header(START()); delete[] mem; }
SX_CASE(header_any) { alpha(sx_bound(5, 6), nullptr); check_header(0); delete[] mem; }
