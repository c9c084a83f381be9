// @bounds contract: 180 parsers of the family with real parts (narrow, wide, SGML, HTTP), each on every prefix of a sample text with one arbitrary unit put anywhere, on every text of 0..2 (thorough 3) arbitrary units, started at 0 or 1, memory ends where reading must stop, fresh and after an earlier match; phone numbers: every text of up to 6 (thorough 7) units of 9 kinds; emoticons: every text of up to 4 (thorough 5) units of 10 kinds; chemical formulas: every text of up to 4 (thorough 5) units, parts match or not at every position
// @outside longer texts; wide units above 0x7fff_ffff
// @assume start <= min(end, length); parts that are required are given
#include "parse.h"
#include <memory>
template <class T> struct str { T v[64]; size_t n = 0; str(const char* s) { for (; s[n]; ++n) v[n] = T((signed char)s[n]); v[n] = 0; } operator const T*() const { return v; } };
template <class T> struct kit {
	typedef std::shared_ptr<basic_parser<T>> P; typedef std::shared_ptr<basic_set<T>> S;
	P d[16];
	kit() { for (int i = 0; i < 16; ++i) d[i] = c("0123456789abcdef"[i]); }
	static P c(char x) { return std::make_shared<basic_cu<T>>(T(x)); }
	static S s(const char* x) { return std::make_shared<basic_cu_set<T>>(str<T>(x)); }
	static P w(const char* x) { return std::make_shared<basic_string<T>>(str<T>(x)); }
	P dig() { return s("0123456789"); }
	static P many(P p) { return std::make_shared<basic_iterations<T>>(p, 1); }
	std::shared_ptr<basic_integer10<T>> i10() { return std::make_shared<basic_integer10<T>>(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9]); }
	std::shared_ptr<basic_integer16<T>> i16() { return std::make_shared<basic_integer16<T>>(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15]); }
	P ipv4() { return std::make_shared<basic_ipv4_address<T>>(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], c('.')); }
	P ipv6() { return std::make_shared<basic_ipv6_address<T>>(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15], c(':'), c('%'), many(std::make_shared<basic_ipv6_scope_id_char<T>>())); }
	P dns() { return std::make_shared<basic_dns_name<T>>(false, std::make_shared<basic_dns_domain_char<T>>(true), c('.')); }
	P path() { return std::make_shared<basic_url_path<T>>(std::make_shared<basic_url_path_char<T>>(), c('?'), c('#')); }
};
template <class T> struct item { std::shared_ptr<basic_parser<T>> p; const char* sample; };
// Parser number k of the family (a fresh one), with a text it matches
template <class T> static item<T> make(unsigned k)
{
	kit<T> q; typedef std::shared_ptr<basic_parser<T>> P; P none;
	auto seq = [&](bool perm) -> P { P e[3] = { q.c('a'), q.many(q.c('b')), q.c('c') }; return perm ? P(std::make_shared<basic_permutation<T>>(e, 3)) : P(std::make_shared<basic_sequence<T>>(e, 3)); };
#define M(t, ...) std::make_shared<t<T>>(__VA_ARGS__)
	switch (k) {
	case 0: return { M(basic_noop), "a" };
	case 1: return { M(basic_any_cu), "a" };
	case 2: return { q.c('a'), "ab" };
	case 3: return { M(basic_cu, T('a'), true), "b" };
	case 4: return { M(basic_space_cu), " a" };
	case 5: return { M(basic_space_cu, true), "a" };
	case 6: return { M(basic_punct_cu), ".a" };
	case 7: return { M(basic_space_or_punct_cu), " ." };
	case 8: return { M(basic_bol), "a" };
	case 9: return { M(basic_eol), "\r\n" };
	case 10: return { q.s("ab"), "b" };
	case 11: return { M(basic_cu_set, str<T>("ab"), 2, true), "c" };
	case 12: return { q.w("abc"), "abcd" };
	case 13: return { M(basic_iterations, q.c('a'), 1, 3), "aaaa" };
	case 14: return { M(basic_iterations, q.c('a'), 2, 3, false), "aaaa" };
	case 15: return { seq(false), "abbc" };
	case 16: return { seq(true), "bbca" };
	case 17: { P e[2] = { q.w("ab"), q.c('a') }; return { M(basic_branch, e, 2), "ab" }; }
	case 18: { str<T> a("ab"), b("ac"); T both[6] = { 'a', 'b', 0, 'a', 'c', 0 }; return { M(basic_string_branch, both, 6), "ac" }; }
	case 19: return { q.i10(), "12" };
	case 20: return { M(basic_integer10ts, q.i10(), q.s(",.")), "1,234,567" };
	case 21: return { q.i16(), "1f" };
	case 22: return { M(basic_roman_numeral, q.c('I'), q.c('V'), q.c('X'), q.c('L'), q.c('C'), q.c('D'), q.c('M'), q.c('P'), q.c('Q')), "MCMXIV" };
	case 23: return { M(basic_fraction, q.i10(), q.c('/'), q.i10()), "1/23" };
	case 24: return { M(basic_score, q.i10(), q.c(':'), q.i10(), q.c(' ')), "1 : 2" };
	case 25: return { M(basic_signed_numeral, q.c('+'), q.c('-'), q.c('~'), q.i10()), "-12" };
	case 26: return { M(basic_mixed_numeral, q.c('+'), q.c('-'), none, q.i10(), q.c(' '), M(basic_fraction, q.i10(), q.c('/'), q.i10())), "-1 2/3" };
	case 27: return { M(basic_scientific_numeral, q.c('+'), q.c('-'), none, q.i10(), q.c('.'), q.i10(), q.c('e'), q.c('+'), q.c('-'), q.i10()), "-1.2e-3" };
	case 28: return { M(basic_monetary_numeral, q.c('+'), q.c('-'), none, q.c('$'), q.i10(), q.c('.'), q.i10()), "-$1.2" };
	case 29: return { q.ipv4(), "10.2.30.255" };
	case 30: return { q.ipv6(), "1:fe::2:3%e0" };
	case 31: return { M(basic_ipv6_scope_id_char), "a" };
	case 32: return { M(basic_dns_domain_char, false), "a" };
	case 33: return { q.dns(), "a-b.cd" };
	case 34: return { M(basic_url_username_char), "a" };
	case 35: return { M(basic_url_password_char), "a" };
	case 36: return { M(basic_url_path_char), "a" };
	case 37: return { q.path(), "/a%20?b=c#d" };
	case 38: return { M(basic_url, q.w("http"), q.w("ftp"), q.w("mailto"), q.w("file"), q.c(':'), q.c('/'), q.many(M(basic_url_username_char)), q.many(M(basic_url_password_char)), q.c('@'), q.c('['), q.c(']'), q.ipv4(), q.ipv6(), q.dns(), q.i10(), q.path()), "http://u:p@h.si:8/x?y" };
	case 39: return { M(basic_email_address, q.many(M(basic_url_username_char)), q.c('@'), q.c('['), q.c(']'), q.ipv4(), q.ipv6(), q.dns()), "a.b@[1.2.3.4]" };
	case 40: return { M(basic_emoticon, q.c('E'), q.c('O'), q.s(":;"), q.c('-'), q.s(")(")), "O:-))" };
	case 41: return { M(basic_date, date_format_dmy | date_format_ymd | date_format_my, q.i10(), q.i10(), q.i10(), q.s(".-"), q.c(' ')), "1. 2. 2020" };
	case 42: return { M(basic_time, q.i10(), q.i10(), q.i10(), q.i10(), q.s(":."), q.c(',')), "12:34:56,789" };
	case 43: return { M(basic_angle, q.i10(), q.c('d'), q.i10(), q.c('m'), q.i10(), q.c('s'), q.i10()), "12d34m56s" };
	case 44: return { M(basic_phone_number, q.dig(), q.c('+'), q.s("(["), q.s(")]"), q.c('-'), q.c(' ')), "+1 (23) 4-5" };
	case 45: return { M(basic_phone_number, q.dig(), none, nullptr, nullptr, none, none), "12" };
	case 46: return { M(basic_iban, q.c(' ')), "BE71 0961 2345 6769" };
	case 47: return { M(basic_creditor_reference, q.c(' ')), "RF18 5390 0754 7034" };
	case 48: return { M(basic_si_reference_part), "123" };
	case 49: return { M(basic_si_reference_delimiter), "-" };
	case 50: return { M(basic_si_reference, q.c(' ')), "SI12 1235-0" };
	case 51: return { M(basic_chemical_formula, q.s("HOC"), q.dig(), q.s("+-")), "H2O+" };
	case 52: return { M(basic_json_string, q.c('"'), M(basic_any_cu), q.c('\\'), q.c('/'), q.c('b'), q.c('f'), q.c('n'), q.c('r'), q.c('t'), q.c('u'), q.i16()), "\"a\\nb\\u00e9\"" };
	case 53: return { M(basic_css_comment), "/* a */" };
	case 54: return { M(basic_css_cdo), "<!--" };
	case 55: return { M(basic_css_cdc), "-->" };
	case 56: return { M(basic_css_string), "\"a\\\"b\"" };
	case 57: return { M(basic_css_uri), "url( 'a' )" };
	case 58: return { M(basic_css_import), "@import 'a'" };
	case 59: return { M(basic_mime_type), "a/b; charset=\"c\"" };
	case 60: return { M(basic_html_ident), "abc" };
	case 61: return { M(basic_html_value), "\"a b\"" };
	case 62: return { M(basic_html_tag), "<a b=\"c\" d=e f/>" };
	case 63: return { M(basic_html_declaration_condition_start), "<![if a[" };
	case 64: return { M(basic_html_declaration_condition_end), "]]>" };
	}
#undef M
	return { none, nullptr };
}
static const unsigned common_count = 65;
static item<char> make_char(unsigned k)
{
	switch (k) {
#define M(t, ...) std::make_shared<t>(__VA_ARGS__)
	case 0: return { M(sgml_any_cp), "&scaron;a" };
	case 1: return { M(sgml_cp, "\xc5\xa1"), "\xc5\xa1" };
	case 2: return { M(sgml_space_cp), " &a" };
	case 3: return { M(sgml_punct_cp), "&lt;" };
	case 4: return { M(sgml_space_or_punct_cp), "&lt;" };
	case 5: return { M(sgml_cp_set, "a&lt;b"), "&lt;" };
	case 6: return { M(sgml_string, "a&lt;b"), "a&#60;b" };
	case 7: return { M(sgml_ipv6_scope_id_char), "a" };
	case 8: return { M(sgml_dns_domain_char, true), "a&scaron;" };
	case 9: return { M(sgml_url_username_char), "&amp;" };
	case 10: return { M(sgml_url_password_char), "a" };
	case 11: return { M(sgml_url_path_char), "&amp;" };
	case 12: return { M(http_line_break), "\r\nab" };
	case 13: return { M(http_space), " \r\n a" };
	case 14: return { M(http_text_char), "a" };
	case 15: return { M(http_token), "abc " };
	case 16: return { M(http_quoted_string), "\"a\\\"b\"" };
	case 17: return { M(http_value), "abc" };
	case 18: return { M(http_parameter), "a = \"b\"" };
	case 19: return { M(http_any_type), "*" };
	case 20: return { M(http_media_range), "a/*" };
	case 21: return { M(http_media_type), "a/b; c=d;e=f" };
	case 22: return { M(http_url_server), "a.b:" };
	case 23: return { M(http_url_port), "8080" };
	case 24: return { M(http_url_path_segment), "ab" };
	case 25: return { M(http_url_path), "/a/b" };
	case 26: return { M(http_url_parameter), "a=b&" };
	case 27: return { M(http_url), "http://a:8/b?c=d" };
	case 28: return { M(http_language), "sl-SI" };
	case 29: return { M(http_weight), "0.25" };
	case 30: return { M(http_asterisk), "*" };
	case 31: return { M(http_weighted_value<http_token>), "a; q=0.5" };
	case 32: return { M(http_cookie_parameter), "$Path = a" };
	case 33: return { M(http_cookie), "a=b; $Path=c" };
	case 34: return { M(http_agent), "ab/1.2 " };
	case 35: return { M(http_protocol), "HTTP/1.1\r\n" };
	case 36: return { M(http_request), "GET /a?b=c HTTP/1.1\r\n" };
	case 37: return { M(http_header), "Ab: c\r\n d\r\n" };
#undef M
	}
	return { nullptr, nullptr };
}
static const unsigned char_count = 38;
template <class T> static bool contract(basic_parser<T>& p, const T* t, size_t start, size_t limit, size_t n)
{
	bool r = p.match(t, start, limit);
	if (r) { sx_check(p.interval.start == start, "a match begins where it was asked for"); sx_check(p.interval.end >= start && p.interval.end <= n, "a match ends inside the text"); }
	else sx_check(!p.interval, "no match leaves no region");
	return r;
}
static void warm(basic_parser<char>& p, const char* s) { p.match(s, 0, SIZE_MAX); }
static void warm(basic_parser<wchar_t>& p, const char* s) { str<wchar_t> w(s); p.match(w.v, 0, SIZE_MAX); }
template <class T> static void both(item<T> fresh, item<T> used, const T* src, size_t n, size_t start)
{
	bool term = sx_choose(2, "terminator"); T* t = new T[n + term]; for (size_t i = 0; i < n; ++i) t[i] = src[i]; if (term) t[n] = 0;
	size_t limit = term ? SIZE_MAX : n, len = n; for (size_t i = 0; i < n; ++i) if (src[i] == 0) { len = i; break; }
	if (start > len) start = len;
	warm(*used.p, used.sample); sx_check((bool)used.p->interval, "the sample matches");
	bool a = contract(*fresh.p, t, start, limit, len), b = contract(*used.p, t, start, limit, len);
	sx_check(a == b && fresh.p->interval.start == used.p->interval.start && fresh.p->interval.end == used.p->interval.end, "an earlier match makes no difference");
	used.p->invalidate(); sx_check(!used.p->interval, "invalidated");
	sx_cover(a ? "match" : "no match");
	delete[] t;
}
// Sample text cut short, one arbitrary unit anywhere
template <class T> static void near_sample(item<T> fresh, item<T> used)
{
	str<T> s(fresh.sample); size_t at = sx_choose((uint32_t)s.n + 1, "arbitrary unit"), cut = sx_choose(3, "cut"), n = cut == 0 ? at : cut == 1 ? at + 1 : s.n;
	if (at < n) sx_symbolic(s.v + at, sizeof(T), "unit");
	if (cut == 1 && at == s.n) n = s.n + 1, sx_symbolic(s.v + s.n, sizeof(T), "unit");
	if (sizeof(T) > 1 && at < n) sx_assume(s.v[at] >= 0);
	both(fresh, used, s.v, n, 0);
}
template <class T> static void any(item<T> fresh, item<T> used)
{
	T s[4]; size_t n = sx_choose(sx_bound(2, 3) + 1, "length"), start = n ? sx_choose(2, "start") : 0; sx_symbolic(s, n * sizeof(T), "text"); for (size_t i = 0; i < n; ++i) if (sizeof(T) > 1) sx_assume(s[i] >= 0);
	both(fresh, used, s, n, start);
}
SX_CASE(sample_char) { unsigned k = sx_choose(common_count, "parser"); near_sample(make<char>(k), make<char>(k)); }
SX_CASE(sample_wide) { unsigned k = sx_choose(common_count, "parser"); near_sample(make<wchar_t>(k), make<wchar_t>(k)); }
SX_CASE(sample_sgml_http) { unsigned k = sx_choose(char_count, "parser"); near_sample(make_char(k), make_char(k)); }
SX_CASE(any_char) { unsigned k = sx_choose(common_count, "parser"); any(make<char>(k), make<char>(k)); }
SX_CASE(any_wide) { unsigned k = sx_choose(common_count, "parser"); any(make<wchar_t>(k), make<wchar_t>(k)); }
SX_CASE(any_sgml_http) { unsigned k = sx_choose(char_count, "parser"); any(make_char(k), make_char(k)); }
SX_CASE(searching)
{
	// the first position at which the parser matches
	char t[6]; size_t n = sx_choose(5, "length"), start = sx_choose((uint32_t)n + 1, "start"); for (size_t i = 0; i < n; ++i) t[i] = (char)sx_u8("unit");
	char* m = new char[n]; memcpy(m, t, n); basic_cu_set<char> p("ab"); bool used = sx_choose(2, "used"); if (used) sx_check(p.match("a"), "earlier match");
	size_t e = start; while (e < n && t[e] && t[e] != 'a' && t[e] != 'b') ++e; bool want = e < n && t[e];
	sx_check(p.search(m, start, n) == want, "found"); region_is(p, want, e, e + 1, "first match"); sx_cover(want ? "found" : "not found"); delete[] m;
}
// --- phone numbers, emoticons and formulas over kinds of units
enum { DIGIT = 1, PLUS, LP0, LP1, RP0, RP1, SEP, SPACE, OTHER };
static int FL; static char* TXT; static size_t N;
struct kind : basic_parser<char> {
	int k, f; kind(int k, int f) : k(k), f(f) {}
protected:
	virtual bool do_match(const char* t, size_t s = 0, size_t e = SIZE_MAX, int fl = match_default) override
	{
		sx_check(t == TXT && e == N && s <= N && fl == f, "part asked about the same text and flags");
		if (s < e && t[s] == k) { interval.start = s; interval.end = s + 1; return true; }
		interval.invalidate(); return false;
	}
};
struct kinds : basic_set<char> {
	int k, l; kinds(int k, int l) : k(k), l(l) {}
protected:
	virtual bool do_match(const char* t, size_t s = 0, size_t e = SIZE_MAX, int fl = match_default) override
	{
		sx_check(t == TXT && e == N && s <= N && fl == FL, "part asked about the same text and flags");
		if (s < e && (t[s] == k || t[s] == l)) { hit_offset = t[s] == k ? 0 : 1; interval.start = s; interval.end = s + 1; return true; }
		hit_offset = SIZE_MAX; interval.invalidate(); return false;
	}
};
SX_CASE(phone)
{
	N = sx_choose(sx_bound(6, 7) + 1, "length"); TXT = new char[N]; for (size_t i = 0; i < N; ++i) TXT[i] = (char)sx_range(DIGIT, OTHER, "unit");
	FL = sx_choose(2, "flags") ? match_multiline | match_case_insensitive : match_default; size_t start = N && sx_choose(2, "start"); unsigned opt = sx_choose(5, "missing part");
	bool hplus = opt != 1, hpar = opt != 2, hsep = opt != 3, hsp = opt != 4;
	std::shared_ptr<basic_set<char>> lp, rp; if (hpar) lp = std::make_shared<kinds>(LP0, LP1), rp = std::make_shared<kinds>(RP0, RP1);
	std::shared_ptr<basic_parser<char>> plus, sep, sp; if (hplus) plus = std::make_shared<kind>(PLUS, FL); if (hsep) sep = std::make_shared<kind>(SEP, FL); if (hsp) sp = std::make_shared<kind>(SPACE, FL & ~match_multiline);
	basic_phone_number<char> p(std::make_shared<kind>(DIGIT, FL), plus, lp, rp, sep, sp);
	if (sx_choose(2, "used")) { p.value = "junk"; p.interval.start = 0; p.interval.end = N; if (hpar) lp->interval.start = rp->interval.start = 0, lp->interval.end = rp->interval.end = 1; }
	bool r = p.match(TXT, start, N, FL);
	// [+] then the longest run in which every unit may follow what precedes it; cut to the last digit outside or closing parenthesis
	size_t q = start, fin = start; char v[16], fv[16]; size_t vn = 0, fn = 0; bool got = false; int open = 0; /* 0 not yet, LP0/LP1 inside, -1 closed */ int prev = 0;
	if (hplus && q < N && TXT[q] == PLUS) v[vn++] = TXT[q++];
	for (; q < N; prev = TXT[q++]) {
		int c = TXT[q];
		if (c == DIGIT) { v[vn++] = (char)c; if (open <= 0) got = true, fin = q + 1, fn = vn; }
		else if (hpar && (c == LP0 || c == LP1) && open == 0) { open = c; v[vn++] = (char)c; }
		else if (hpar && (c == RP0 || c == RP1) && open > 0 && c - RP0 == open - LP0) { open = -1; v[vn++] = (char)c; fin = q + 1; fn = vn; }
		else if (hsep && c == SEP && prev == DIGIT && open <= 0) ;
		else if (hsp && c == SPACE && (prev == DIGIT || prev == RP0 || prev == RP1)) ;
		else break;
		for (size_t i = 0; i < vn; ++i) if (i < fn) fv[i] = v[i];
	}
	sx_check(r == got, "a number has a digit outside parentheses"); region_is(p, got, start, fin, "region");
	if (got) { sx_check(p.value.size() == fn && !memcmp(p.value.data(), fv, fn), "normalised number"); sx_cover(open == -1 ? "with parentheses" : "plain"); }
	else { sx_check(p.value.empty(), "no value"); sx_cover("none"); }
	p.invalidate(); sx_check(p.value.empty() && !p.interval, "invalidated");
	delete[] TXT;
}
// every unit plays one or two parts of a face
enum { EMO = 1, APEX, EYES, NOSE, MOUTH0, MOUTH1, APEX_EYES, NOSE_MOUTH0, EYES_MOUTH1, OTHER2 };
static bool plays(int c, int part)
{
	switch (part) {
	case EMO: return c == EMO; case APEX: return c == APEX || c == APEX_EYES; case EYES: return c == EYES || c == APEX_EYES || c == EYES_MOUTH1;
	case NOSE: return c == NOSE || c == NOSE_MOUTH0; case MOUTH0: return c == MOUTH0 || c == NOSE_MOUTH0; default: return c == MOUTH1 || c == EYES_MOUTH1;
	}
}
template <class B> struct face : B {
	int k; face(int k) : k(k) {}
	bool is(bool have, size_t s, size_t e) const { return have ? this->interval.start == s && this->interval.end == e : !this->interval; }
protected:
	bool find(const char* t, size_t s, size_t e, int fl, int part)
	{
		sx_check(t == TXT && e == N && s <= N && fl == FL, "part asked about the same text and flags");
		if (s < e && plays(t[s], part)) { this->interval.start = s; this->interval.end = s + 1; return true; }
		this->interval.invalidate(); return false;
	}
	virtual bool do_match(const char* t, size_t s = 0, size_t e = SIZE_MAX, int fl = match_default) override { return find(t, s, e, fl, k); }
};
struct mouths : face<basic_set<char>> {
	mouths() : face<basic_set<char>>(MOUTH0) {}
protected:
	virtual bool do_match(const char* t, size_t s = 0, size_t e = SIZE_MAX, int fl = match_default) override
	{ hit_offset = SIZE_MAX; if (find(t, s, e, fl, MOUTH0)) hit_offset = 0; else if (find(t, s, e, fl, MOUTH1)) hit_offset = 1; return hit_offset != SIZE_MAX; }
};
SX_CASE(emoticons)
{
	N = sx_choose(sx_bound(4, 5) + 1, "length"); TXT = new char[N]; for (size_t i = 0; i < N; ++i) TXT[i] = (char)sx_range(EMO, OTHER2, "unit");
	FL = sx_choose(2, "flags") ? match_multiline | match_case_insensitive : match_default; size_t start = N && sx_choose(2, "start"); unsigned opt = sx_choose(4, "missing part");
	typedef face<basic_parser<char>> F; std::shared_ptr<F> emo, apex, eyes = std::make_shared<F>(EYES), nose; auto mouth = std::make_shared<mouths>();
	if (opt != 1) emo = std::make_shared<F>(EMO); if (opt != 2) apex = std::make_shared<F>(APEX); if (opt != 3) nose = std::make_shared<F>(NOSE);
	basic_emoticon<char> p(emo, apex, eyes, nose, mouth);
	if (sx_choose(2, "used")) { for (auto& x : { emo, apex, eyes, nose }) if (x) x->interval.start = 0, x->interval.end = 1; mouth->interval.start = 0; mouth->interval.end = 1; mouth->hit_offset = 0; }
	bool r = p.match(TXT, start, N, FL);
	auto has = [&](size_t q, int part) { return q < N && plays(TXT[q], part); };
	bool whole = emo && has(start, EMO), ha = false, hn = false, hm = false; size_t a = start, y = 0, m = 0, me = 0; int which = 0;
	if (!whole) {
		ha = apex && has(start, APEX); y = start + ha;
		if (has(y, EYES)) {
			m = y + 1; if (nose && has(m, NOSE) && (has(m + 1, MOUTH0) || has(m + 1, MOUTH1))) hn = true, ++m;
			hm = has(m, MOUTH0) || has(m, MOUTH1);
			if (hm) { which = has(m, MOUTH0) ? MOUTH0 : MOUTH1; for (me = m; has(me, which); ++me); }
		}
	}
	bool want = whole || hm; sx_check(r == want, "a whole emoticon or eyes and a mouth"); region_is(p, want, start, whole ? start + 1 : me, "region");
	sx_check(!emo || emo->is(whole, start, start + 1), "whole"); sx_check(!apex || apex->is(hm && ha, a, a + 1), "apex"); sx_check(eyes->is(hm, y, y + 1), "eyes"); sx_check(!nose || nose->is(hm && hn, y + 1, y + 2), "nose"); sx_check(mouth->is(hm, m, me), "mouth");
	if (hm) sx_check(mouth->hit_offset == (which == MOUTH0 ? 0 : 1), "which mouth");
	sx_cover(whole ? "whole" : hn ? "nose" : hm ? "no nose" : "none");
	p.invalidate(); sx_check(!p.interval && eyes->is(false, 0, 0) && mouth->is(false, 0, 0), "invalidated");
	delete[] TXT;
}
SX_CASE(formula)
{
	size_t n = sx_choose(sx_bound(4, 5) + 1, "length"), start = n && sx_choose(2, "start"); char* t = new char[n]; for (size_t i = 0; i < n; ++i) t[i] = (char)sx_range(1, 255, "unit");
	bool ci = sx_choose(2, "case-insensitive"), used = sx_choose(2, "used"); int fl = ci ? match_case_insensitive | match_multiline : match_default;
	auto el = mk("element", n, 1, 2, t, fl & ~match_case_insensitive, used), di = mk("digit", n, 1, 1, t, fl, used), si = mk("sign", n, 1, 1, t, fl, used);
	basic_chemical_formula<char> p(el, di, si); if (used) p.has_digits = p.has_charge = true, p.interval.start = 0, p.interval.end = n;
	bool r = p.match(t, start, n, fl), dig = false, charge = false; size_t q = start;
	while (el->at(q) > 0) { q += el->at(q); while (di->at(q) > 0) ++q, dig = true; }
	bool want = q > start; if (want && si->at(q) > 0) ++q, charge = true;
	sx_check(r == want, "elements"); region_is(p, want, start, q, "region"); sx_check(p.has_digits == dig && p.has_charge == charge, "digits and charge");
	sx_cover(charge ? "charge" : dig ? "digits" : want ? "plain" : "none"); p.invalidate(); sx_check(!p.interval && !p.has_digits && !p.has_charge, "invalidated");
	delete[] t;
}
