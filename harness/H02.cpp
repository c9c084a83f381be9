// @bounds texts of 0..3 (thorough 0..4) arbitrary units, char and wchar_t, terminated or ending at the limit; memory ends right after
// @outside the token stream of the HTML parser and builder around these functions; wide URL escapes (there are none)
#include <mutex>
#include "text.h"
#include <stdex/html.hpp>
using namespace stdex;
static unsigned N() { return sx_bound(3, 4); }
template <class T> static bool is(const std::basic_string<T>& d, const text<T>& s) { bool r = d.size() == s.n; for (size_t i = 0; r && i < s.n; ++i) if (d[i] != s.at[i]) return false; return r; }
static bool among(unsigned char c, const char* set) { bool r = false; for (; *set; ++set) r |= c == (unsigned char)*set; return r; }
static bool alnum(unsigned char c) { unsigned char a = c | 0x20; return (unsigned char)(c - '0') < 10 || (unsigned char)(a - 'a') < 26; }
static bool hexd(unsigned char c) { return (unsigned char)(c - '0') < 10 || (unsigned char)((c | 0x20) - 'a') < 6; }
static unsigned hexv(unsigned char c) { return c < 'A' ? c - '0' : (c | 0x20) - 'a' + 10; }
SX_CASE(url_round_trip)
{
	text<char> s(N(), "n");
	std::string e, d; html::url_escape(e, s.p, s.limit);
	for (size_t i = 0; i < e.size(); ++i) {
		unsigned char c = e[i];
		if (c == '%') { sx_check(i + 2 < e.size() && hexd(e[i + 1]) && hexd(e[i + 2]), "a percent sign starts an escape"); i += 2; sx_cover("escaped"); }
		else sx_check(alnum(c) || among(c, "-_.!*'(),\""), "safe characters only");
	}
	html::url_unescape(d, e.data(), e.size());
	sx_check(is(d, s), "URL text survives");
	std::string d2("x"); html::url_unescape(d2, std::string_view(e)); std::string e2("y"); html::url_escape(e2, std::string_view(s.p, s.n));
	sx_check(d2 == "x" + d && e2 == "y" + e, "appended");
}
SX_CASE(url_unescape)
{
	text<char> s(N() + 1, "n");
	std::string d, w; html::url_unescape(d, s.p, s.limit);
	for (size_t i = 0; i < s.n; ++i) {
		unsigned char c = s.at[i];
		if (c == '+') w += ' ';
		else if (c == '%' && i + 2 < s.n && hexd(s.at[i + 1]) && hexd(s.at[i + 2])) { w += (char)(hexv(s.at[i + 1]) << 4 | hexv(s.at[i + 2])); i += 2; sx_cover("unescaped"); }
		else if (c == '%' && i + 1 < s.n && hexd(s.at[i + 1])) { w += '%'; w += s.at[++i]; sx_cover("malformed"); } // a single digit
		else w += (char)c;
	}
	sx_check(d == w, "URL text unescaped");
}
template <class T> static void css()
{
	text<T> s(N(), "n");
	std::basic_string<T> e, d; html::css_escape(e, s.p, s.limit);
	for (size_t i = 0; i < e.size(); ++i) {
		T c = e[i];
		if (c == '\\') { sx_check(i + 1 < e.size(), "a backslash escapes something"); ++i; sx_cover("escaped"); }
		else sx_check(c != '"' && c != '\'' && c != '\n' && c != '\r' && c != '\t', "safe characters only");
	}
	html::css_unescape(d, e.data(), e.size());
	sx_check(is(d, s), "CSS text survives");
	std::basic_string<T> d2; html::css_unescape(d2, e); sx_check(d2 == d, "string form");
}
SX_CASE(css_char) { css<char>(); }
SX_CASE(css_wide) { css<wchar_t>(); }
template <class T> static void css_un()
{
	text<T> s(N() + 1, "n");
	std::basic_string<T> d, w; html::css_unescape(d, s.p, s.limit);
	for (size_t i = 0; i < s.n; ++i) {
		T c = s.at[i];
		if (c != '\\') { w += c; continue; }
		if (++i >= s.n) break; // a backslash at the end stands for nothing
		c = s.at[i];
		if (c == 'n') w += '\n'; else if (c == 'r') w += '\r'; else if (c == 't') w += '\t'; else if (c == '\n') ;
		else if (c > 0 && c < 128 && hexd((unsigned char)c)) {
			wchar_t v = 0; size_t k = 0;
			while (i < s.n && k < 6 && s.at[i] > 0 && s.at[i] < 128 && hexd((unsigned char)s.at[i])) { v = v * 16 + hexv((unsigned char)s.at[i]); ++i; ++k; }
			w += (T)v; if (!(i < s.n && s.at[i] == ' ')) --i; sx_cover("code point");
		} else w += c;
	}
	sx_check(d == w, "CSS text unescaped");
}
SX_CASE(css_unescape_char) { css_un<char>(); }
SX_CASE(css_unescape_wide) { css_un<wchar_t>(); }
template <class T> static void ap(std::basic_string<T>& d, const char* s) { for (; *s; ++s) d += (T)*s; }
template <class T> static void markup(bool min)
{
	text<T> s(N(), "n");
	std::basic_string<T> e, w;
	if (min) html::escape_min(e, s.p, s.limit); else html::escape(e, s.p, s.limit);
	for (size_t i = 0; i < s.n; ++i) {
		T c = s.at[i];
		if (c == '&') ap(w, "&amp;"); else if (c == '<') ap(w, "&lt;"); else if (c == '>') ap(w, "&gt;");
		else if (sizeof(T) > 1 && c == (T)0xa0) ap(w, "&nbsp;");
		else if (!min && c == ';') ap(w, "&semi;"); else if (!min && c == '"') ap(w, "&quot;"); else if (!min && c == '\'') ap(w, "&#x27;");
		else w += c;
	}
	sx_check(e == w, "characters that markup interprets become entities, nothing else changes");
	std::wstring d; sgml2strcat(d, e.data(), e.size());
	bool ok = d.size() == s.n; for (size_t i = 0; ok && i < s.n; ++i) ok = d[i] == (wchar_t)s.at[i];
	sx_check(ok, "decoding gives back the text");
	if (min) { std::basic_string<T> m; for (size_t i = 0; i < s.n; ++i) html::escape_min(m, s.at[i]); sx_check(m == e, "character by character"); }
	std::basic_string<T> src(s.at, s.n), f; if (min) html::escape_min(f, src); else html::escape(f, src); sx_check(f == e, "string form");
	if (e.size() > s.n) sx_cover("entities"); 
}
SX_CASE(html_char) { markup<char>(false); }
SX_CASE(html_wide) { markup<wchar_t>(false); }
SX_CASE(min_char) { markup<char>(true); }
SX_CASE(min_wide) { markup<wchar_t>(true); }
