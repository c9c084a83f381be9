// @bounds entity lookup: every entity of the table, every name of 1..3 (thorough 1..4) arbitrary units, every numeric entity of up to 6 (thorough 8) arbitrary units after '#'; decoding: texts of up to 2 (thorough 3) items, each an arbitrary unit or one of 12 entity-like pieces with symbolic parts, char and wchar_t to wchar_t, char to char16_t; each exclusion flag, their combination for C and all together; destination buffers of every size up to 12 (thorough 14) units with up to 2 units of prior text
// @outside longer texts and names
#include "text.h"
#include <stdex/sgml.hpp>
using namespace stdex;
static const size_t NE = sizeof(sgml_unicode) / sizeof(*sgml_unicode);
template <class T> static bool row_is(size_t k, const T* name, size_t n)
{
	bool r = true; const char* s = sgml_unicode[k].sgml;
	size_t i = 0; for (; i < n; ++i) { if (i >= sizeof(sgml_unicode[k].sgml) || !s[i]) return false; r &= (T)s[i] == name[i]; }
	return r && (i >= sizeof(sgml_unicode[k].sgml) || !s[i]);
}
SX_CASE(every_name)
{
	size_t k = sx_choose((uint32_t)NE, "entity"), f = k;
	size_t n = stdex::strnlen(sgml_unicode[k].sgml, sizeof(sgml_unicode[k].sgml));
	while (f && row_is(f - 1, sgml_unicode[k].sgml, n)) --f;
	wchar_t buf[2];
	if (sx_choose(2, "wide")) {
		wchar_t* w = new wchar_t[n]; for (size_t i = 0; i < n; ++i) w[i] = sgml_unicode[k].sgml[i];
		sx_check(sgml2uni(w, n, buf) == sgml_unicode[f].unicode, "every known entity is found"); delete[] w;
	} else {
		char* w = new char[n]; for (size_t i = 0; i < n; ++i) w[i] = sgml_unicode[k].sgml[i];
		sx_check(sgml2uni(w, n, buf) == sgml_unicode[f].unicode, "every known entity is found"); delete[] w;
	}
	sx_check(sgml_unicode[k].unicode[0] != 0 && sgml_unicode[k].unicode[2] == 0, "an entity is one or two characters");
	sx_cover("known");
}
template <class T> static void any_name()
{
	size_t n = 1 + sx_choose(sx_bound(3, 4), "n"); T* s = new T[n]; sx_symbolic(s, n * sizeof(T), "name");
	sx_assume(s[0] != '#'); for (size_t i = 0; i < n; ++i) sx_assume(s[i] != 0);
	wchar_t buf[2];
	const wchar_t* r = sgml2uni(s, n, buf);
	if (r) {
		size_t k = ((const char*)r - (const char*)sgml_unicode) / sizeof(*sgml_unicode);
		sx_check(k < NE && r == sgml_unicode[k].unicode, "an entry of the table");
		sx_check(row_is(k, s, n) && !(k && row_is(k - 1, s, n)), "the first entry of that name");
		sx_cover("found");
	} else sx_cover("not found");
	delete[] s;
}
SX_CASE(any_name_char) { any_name<char>(); }
SX_CASE(T_any_name_wide) { any_name<wchar_t>(); }
SX_CASE(numeric)
{
	size_t n = 1 + sx_choose(sx_bound(7, 9), "n"); char* s = new char[n]; sx_symbolic(s, n, "name"); sx_assume(s[0] == '#'); for (size_t i = 0; i < n; ++i) sx_assume(s[i] != 0);
	bool hex = n > 1 && (s[1] | 0x20) == 'x'; size_t st = hex ? 2 : 1;
	bool ok = st < n; uint64_t v = 0;
	for (size_t i = st; i < n; ++i) {
		unsigned c = (unsigned char)s[i], d = c - '0', a = (c | 0x20) - 'a';
		bool dd = d < 10, aa = hex & (a < 6) & (c < 128);
		ok &= dd | aa; v = v * (hex ? 16 : 10) + (dd ? d : a + 10);
	}
	ok = ok && v && v < 0x110000;
	wchar_t buf[2]; const wchar_t* r = sgml2uni(s, n, buf);
	sx_check((r != nullptr) == ok, "numeric entities are digits of a code point");
	if (r) { sx_check((uint64_t)r[0] == v && r[1] == 0, "value of a numeric entity"); sx_cover("numeric"); } else sx_cover("malformed");
	delete[] s;
}
static const int FL[] = { sgml_quot, sgml_apos, sgml_amp, sgml_lt_gt, sgml_lt_gt, sgml_bsol, sgml_dollar, sgml_percnt, sgml_commat, sgml_num, sgml_lpar_rpar, sgml_lpar_rpar, sgml_lcub_rcub, sgml_lcub_rcub, sgml_lsqb_rsqb, sgml_lsqb_rsqb };
static const char FC[] = "\"'&<>\\$%@#(){}[]";
static int flag_of(wchar_t c) { int f = 0; for (int i = 0; i < 16; ++i) f |= c == FC[i] ? FL[i] : 0; return f; }
struct out { wchar_t s[40]; size_t n = 0; size_t mf[16], mt[16]; size_t m = 0; };
static void put(out& o, wchar_t c, bool u16)
{
	if (u16 && (uint32_t)c >= 0x10000 && (uint32_t)c < 0x110000) { o.s[o.n++] = 0xd800 + (((uint32_t)c - 0x10000) >> 10); o.s[o.n++] = 0xdc00 + (((uint32_t)c - 0x10000) & 0x3ff); }
	else o.s[o.n++] = c;
}
template <class T> static void decode(const T* s, size_t n, int skip, bool u16, out& o)
{
	for (size_t i = 0; i < n;) {
		if (s[i] == '&') {
			size_t e = i + 1; while (e < n && s[e] != ';' && s[e] != '&' && !sp(s[e])) ++e;
			if (e < n && s[e] == ';' && e > i + 1) {
				wchar_t buf[2]; const wchar_t* u = sgml2uni(s + i + 1, e - i - 1, buf);
				if (u && !(flag_of(u[0]) & skip)) {
					o.mf[o.m] = i; o.mt[o.m++] = o.n;
					for (; *u; ++u) put(o, *u, u16);
					i = e + 1;
					o.mf[o.m] = i; o.mt[o.m++] = o.n;
					continue;
				}
			}
		}
		if (u16) o.s[o.n++] = (char16_t)s[i++]; else o.s[o.n++] = (wchar_t)s[i++];
	}
}
template <class T> static size_t item(T* d)
{
	static const char* const P[] = { "&amp;", "&lt;", "&smacr;", "&#x@@;", "&quot;", "&nosuch;", "&#x1f600;", "&bsol;", "&;", "&#@;", "&lt", "amp;" };
	uint32_t k = sx_choose(13, "item");
	if (k == 0) { sx_symbolic(d, sizeof(T), "unit"); sx_assume(*d != 0); return 1; }
	size_t n = 0;
	for (const char* p = P[k - 1]; *p; ++p, ++n)
		if (*p == '@') { sx_symbolic(d + n, sizeof(T), "digit"); sx_assume((d[n] >= '0' && d[n] <= '9') || d[n] == 'c'); } else d[n] = *p;
	return n;
}
template <class TO> static bool same(const TO* p, const out& o) { bool r = true; for (size_t i = 0; i < o.n; ++i) r &= p[i] == (TO)o.s[i]; return r; }
template <class TO> static bool maps(const mapping_vector<size_t>& m, const out& o, size_t f, size_t t)
{
	if (m.size() != o.m) return false;
	bool r = true; for (size_t i = 0; i < o.m; ++i) r &= m[i].from == f + o.mf[i] && m[i].to == t + o.mt[i];
	return r;
}
template <class TO, class T> static void decoding(unsigned items, bool flags)
{
	T b[64]; size_t n = 0, k = sx_choose(items + 1, "items");
	for (size_t i = 0; i < k; ++i) n += item(b + n);
	bool term = sx_choose(2, "terminated");
	T* s = new T[n + term]; for (size_t i = 0; i < n; ++i) s[i] = b[i]; if (term) s[n] = 0;
	static const int SK[] = { 0, 0xfff, sgml_c, sgml_quot, sgml_apos, sgml_amp, sgml_lt_gt, sgml_bsol, sgml_dollar, sgml_percnt, sgml_commat, sgml_num, sgml_lpar_rpar, sgml_lcub_rcub, sgml_lsqb_rsqb };
	int skip = SK[sx_choose(flags ? 15 : 3, "excluded")];
	size_t prior = sx_choose(2, "prior text") * 2;
	out o; mapping_vector<size_t> m; 
	std::basic_string<TO> d(prior, TO('p'));
	sgml2strcat(d, s, term ? SIZE_MAX : n, skip, mapping<size_t>(10, 20), &m);
	decode(b, n, skip, sizeof(TO) == 2, o);
	sx_check(d.size() == prior + o.n, "length of the decoded text");
	sx_check(same(d.data() + prior, o), "decoded text");
	for (size_t i = 0; i < prior; ++i) sx_check(d[i] == 'p', "prior text kept");
	sx_check(maps<TO>(m, o, 10, 20 + prior), "positions recorded");
	if (o.m) sx_cover("entity decoded");
	// a buffer of any size
	size_t room = prior + sx_choose(sx_bound(12, 14), "room");
	TO* f = new TO[room]; for (size_t i = 0; i < room; ++i) f[i] = i < prior ? 'p' : 0;
	mapping_vector<size_t> m2;
	bool threw = false; size_t r = 0;
	try { r = sgml2strcat(f, room, s, term ? n + 1 : n, skip, mapping<size_t>(10, 20), &m2); } catch (const std::invalid_argument&) { threw = true; }
	sx_check(threw == (prior + o.n >= room), "overrun exactly when text and terminator do not fit");
	if (!threw) {
		sx_check(r == prior + o.n && f[r] == 0 && same(f + prior, o), "buffer form agrees with the string form");
		sx_check(maps<TO>(m2, o, 10, 20 + prior), "positions recorded in the buffer form");
		sx_cover("fits");
	} else sx_cover("overrun");
	delete[] f; delete[] s;
}
SX_CASE(decode_char) { decoding<wchar_t, char>(1, true); }
SX_CASE(decode_two) { decoding<wchar_t, char>(sx_bound(2, 3), false); }
SX_CASE(decode_wide) { decoding<wchar_t, wchar_t>(sx_bound(1, 2), false); }
SX_CASE(decode_16) { decoding<char16_t, char>(sx_bound(1, 2), false); }
SX_CASE(forms)
{
	char b[16] = "&lt;a"; sx_symbolic(b + 4, 1, "unit"); sx_assume(b[4] != 0); std::string s(b, 5);
	int skip = sx_choose(2, "excluded") ? sgml_lt_gt : 0;
	std::wstring a, c(3, L'z'), d; sgml2strcat(a, s, skip); sgml2strcpy(c, s, skip); sgml2strcpy(d, b, 5, skip);
	sx_check(a == c && a == d && a == sgml2str(s, skip) && a == sgml2str(b, 5, skip), "all forms agree");
	sx_check(a.size() == (skip ? 5 : 2) && a[a.size() - 1] == (wchar_t)b[4], "decoded text");
	wchar_t f[8] = { 'x', 0 }; mapping_vector<size_t> m; m.push_back(mapping<size_t>(1, 1));
	size_t r = sgml2strcpy(f, 8, b, 5, skip, mapping<size_t>(0, 0), &m);
	sx_check(r == a.size() && f[r] == 0 && sx_memeq(f, a.data(), r * sizeof(wchar_t)) && m.size() == (skip ? 0 : 2), "copy into a buffer");
	sx_cover("forms");
}
