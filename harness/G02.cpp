// @bounds every single code point 1..0x10FFFF as UTF-32 and as UTF-16, without flags, with every flag alone and with all of them; texts of up to 3 (thorough 4) items, each an arbitrary ASCII unit or one of 8 characters (accented, combining, supplementary plane, control); destination buffers of every size up to 16 (thorough 20) units with up to 2 units of prior text
// @outside reversibility of a base character followed by combining marks (one entity may stand for two spellings); longer texts
#include "text.h"
#include <stdex/sgml.hpp>
using namespace stdex;
static const int SK[] = { 0, sgml_full, sgml_full | 0xfff, 0xfff, sgml_c, sgml_quot, sgml_apos, sgml_amp, sgml_lt_gt, sgml_bsol, sgml_dollar, sgml_percnt, sgml_commat, sgml_num, sgml_lpar_rpar, sgml_lcub_rcub, sgml_lsqb_rsqb };
static const int FL[] = { sgml_quot, sgml_apos, sgml_lt_gt, sgml_lt_gt, sgml_bsol, sgml_dollar, sgml_percnt, sgml_commat, sgml_lpar_rpar, sgml_lpar_rpar, sgml_lcub_rcub, sgml_lcub_rcub, sgml_lsqb_rsqb, sgml_lsqb_rsqb };
static const char FC[] = "\"'<>\\$%@(){}[]";
template <class T> static void encoding(const T* src, size_t n, bool term, int what, bool reversible, bool buffers)
{
	T* s = new T[n + term]; for (size_t i = 0; i < n; ++i) s[i] = src[i]; if (term) s[n] = 0;
	size_t count = term ? SIZE_MAX : n;
	size_t prior = buffers ? sx_choose(2, "prior text") * 2 : 0;
	std::string e(prior, 'p');
	str2sgmlcat(e, s, count, what);
	for (size_t i = 0; i < prior; ++i) sx_check(e[i] == 'p', "prior text kept");
	for (size_t i = 0; i < e.size(); ++i) sx_check((unsigned char)e[i] < 0x80 && e[i], "pure ASCII");
	sx_check(sgmlerr(e, sgml_full) == npos && sgmlerr(e) == npos, "accepted by the validity check");
	if (reversible) {
		std::basic_string<T> d; sgml2strcat(d, e.data() + prior, e.size() - prior);
		sx_check(d.size() == n, "length after encoding and decoding");
		bool ok = true; for (size_t i = 0; i < n; ++i) ok &= d[i] == src[i];
		sx_check(ok, "text survives encoding and decoding");
		sx_cover("reversible");
	}
	if (e.size() > n + prior) sx_cover("encoded");
	if (buffers) {
		size_t room = sx_choose(sx_bound(16, 20), "room"); sx_assume(room >= prior);
		char* f = new char[room]; for (size_t i = 0; i < room; ++i) f[i] = i < prior ? 'p' : 0;
		bool threw = false; size_t r = 0;
		try { r = str2sgmlcat(f, room, s, count, what); } catch (const std::invalid_argument&) { threw = true; }
		sx_check(threw == (e.size() >= room), "overrun exactly when text and terminator do not fit");
		if (!threw) { sx_check(r == e.size() && f[r] == 0 && sx_memeq(f, e.data(), r), "buffer form agrees with the string form"); sx_cover("fits"); } else sx_cover("overrun");
		delete[] f;
	}
	delete[] s;
}
SX_CASE(one_32)
{
	wchar_t c = (wchar_t)sx_u32("character"); sx_assume((uint32_t)c - 1 < 0x10ffff);
	encoding(&c, 1, sx_choose(2, "terminated"), SK[sx_choose(3, "flags")], true, false);
}
SX_CASE(one_16)
{
	char16_t c[2]; sx_symbolic(c, 4, "units"); sx_assume(c[0] != 0);
	size_t n = 1 + sx_choose(2, "n");
	if (n == 2) sx_assume(is_surrogate_pair(c));
	encoding(c, n, true, SK[sx_choose(3, "flags")], true, false);
}
SX_CASE(flags)
{
	wchar_t c = (wchar_t)sx_u8("character"); sx_assume(c > 0 && c < 0x80);
	int what = SK[sx_choose(17, "flags")];
	encoding(&c, 1, true, what, true, false);
	std::string e; str2sgmlcat(e, &c, 1, what);
	int f = 0; for (int i = 0; i < 14; ++i) f |= c == FC[i] ? FL[i] : 0;
	if (c == '&' || (f & what)) { sx_check(e.size() > 1 && e[0] == '&', "characters asked for become entities"); sx_cover("flagged"); }
}
template <class T> static void items()
{
	T b[16]; size_t n = 0, k = sx_choose(sx_bound(2, 3) + 1, "items"); bool rev = true;
	for (size_t i = 0; i < k; ++i) {
		switch (sx_choose(9, "item")) {
		case 0: { b[n] = (T)sx_u8("ASCII"); sx_assume((unsigned)b[n] - 1 < 0x7f); ++n; break; }
		case 1: b[n++] = 0xed; break;
		case 2: b[n++] = 0x304; rev = rev && !i; break;
		case 3: b[n++] = 's'; break;
		case 4: if (sizeof(T) == 2) { b[n++] = (T)0xd83d; b[n++] = (T)0xde00; } else b[n++] = (T)0x1f600; break;
		case 5: b[n++] = 0x2318; break;
		case 6: b[n++] = '&'; break;
		case 7: b[n++] = ';'; break;
		case 8: b[n++] = 0x20e3; rev = rev && !i; break;
		}
	}
	encoding(b, n, sx_choose(2, "terminated"), SK[sx_choose(sx_bound(2, 4), "flags") * 2 % 7], rev, true);
}
SX_CASE(items_32) { items<wchar_t>(); }
SX_CASE(items_16) { items<char16_t>(); }
SX_CASE(forms)
{
	wchar_t b[3] = { L'<', 0xed, 0 }; b[1] = (wchar_t)sx_u8("character"); sx_assume(b[1]);
	int what = sx_choose(2, "flags") ? sgml_lt_gt : 0;
	std::wstring s(b, 2);
	std::string a, c("zz"), d("y"); str2sgmlcat(a, s, what); str2sgmlcpy(c, s, what); str2sgmlcpy(d, b, 2, what);
	sx_check(a == c && a == d && a == str2sgml(s, what) && a == str2sgml(b, 2, what), "all forms agree");
	char f[24] = "xx"; size_t r = str2sgmlcpy(f, 24, b, 2, what);
	sx_check(r == a.size() && f[r] == 0 && sx_memeq(f, a.data(), r), "copy into a buffer");
	sx_cover("forms");
}
SX_CASE(check)
{
	// the validity check finds the first entity that is not known or not terminated, and non-ASCII text when asked
	static const char* const P[] = { "&amp;", "&nosuch;", "&amp", "&#x41;", "&#;", "& ;" };
	static const bool BAD[] = { false, true, true, false, true, true };
	char b[24]; size_t n = 0, bad = npos; bool full = sx_choose(2, "full");
	for (int i = 0; i < 3; ++i) {
		uint32_t k = sx_choose(7, "item");
		if (k == 6) { b[n] = (char)sx_u8("unit"); sx_assume(b[n] != 0 && b[n] != '&' && b[n] != ';'); if (full && b[n] < 0 && bad == npos) bad = n; ++n; }
		else { if (BAD[k] && bad == npos) bad = n; for (const char* p = P[k]; *p; ++p) b[n++] = *p; }
	}
	// a piece after an unterminated entity must not complete it
	for (size_t i = 0; i < n; ++i) if (b[i] == '&') { size_t e = i + 1; while (e < n && b[e] != ';' && b[e] != '&' && !sp(b[e])) ++e; sx_assume((e < n && b[e] == ';') || bad != npos); }
	sx_check(sgmlerr(b, n, full ? sgml_full : 0) == bad, "position of the first error");
	if (bad == npos) sx_cover("valid"); else sx_cover("invalid");
}
