// @bounds identifiers: all 65536; tags: every text of 0..4 (thorough 5) arbitrary units, memory ending at the terminator; every known tag with arbitrary letter case and arbitrary punctuation for its separators, with one unit changed to anything, cut or extended
// @outside other unknown tags of more than 5 units
// @assume tags are zero-terminated
#include "common.h"
#include <stdex/assert.hpp>
#include <stdex/langid.hpp>
using namespace stdex;
static const char none[] = "?";
static bool punct(unsigned char c) { return (c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126); }
static unsigned char low(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
// the same tag: letters in any case, any punctuation for any other
static bool same_tag(const char* a, const char* b)
{
	size_t i = 0; for (;; ++i) {
		unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i]; if (!x || !y) return x == y;
		if (low(x) != low(y) && !(punct(x) && punct(y))) return false;
	}
}
static void known(const char* tag, langid l)
{
	const char* name = rfc1766_from_langid(l, none); sx_check(name != none, "a tag's identifier has a name");
	sx_check(same_tag(name, tag), "a tag maps to an identifier of the same tag"); 
}
static void warm() { sx_check(langid_from_rfc1766("en") == 9 && rfc1766_from_langid(0x7f, none) == none, "tables"); }
SX_CASE(identifiers)
{
	warm(); langid l = sx_u16("identifier"); const char* name = rfc1766_from_langid(l, none);
	if (name == none) { sx_cover("unknown"); sx_check(rfc1766_from_langid(l, nullptr) == nullptr, "fallback"); return; }
	langid m = langid_from_rfc1766(name); sx_check(m != langid_unknown, "a known identifier's tag is known");
	const char* again = rfc1766_from_langid(m, none); sx_check(again != none && !strcmp(again, name), "the canonical identifier has the same tag");
	sx_check(primary_langid(m) == primary_langid(l) || (primary_langid(l) == 0x8c && primary_langid(m) == 0x29) /* Dari is listed as Persian of Afghanistan */, "the canonical identifier is of the same language"); sx_check((primary_langid(l) | sub_langid(l)) == l, "primary and sub-language");
	// a shorter tag is the base language
	size_t n = 0; while (name[n] && name[n] != '-') ++n; if (!name[n]) sx_check(m == l || l == 0x8c, "a base tag is canonical");
	sx_cover(m == l ? "canonical" : "alias");
}
static void decide(char* s, size_t n)
{
	char* t = new char[n + 1]; memcpy(t, s, n); t[n] = 0;
	langid l = langid_from_rfc1766(t);
	if (l == langid_unknown) sx_cover("no such tag"); else { known(t, l); sx_cover("a tag"); }
	delete[] t;
}
SX_CASE(texts)
{
	warm(); char s[16]; size_t n = sx_choose(sx_bound(6, 11) + 1, "length"); sx_symbolic(s, n, "tag"); for (size_t i = 0; i < n; ++i) sx_assume(s[i] != 0);
	decide(s, n);
}
// a known tag written differently is the same tag, and a changed one is not
SX_CASE(known_tags)
{
	warm(); langid l = sx_u16("identifier"); const char* name = rfc1766_from_langid(l, none); sx_assume(name != none); langid want = langid_from_rfc1766(name);
	char s[32]; size_t n = strlen(name); memcpy(s, name, n + 1); size_t at = sx_choose((uint32_t)n, "unit"); unsigned how = sx_choose(2, "how");
	if (how == 0) { for (size_t i = 0; i < n; ++i) if (s[i] >= 'a' && s[i] <= 'z') { if (i == at) s[i] -= 32; } else if (s[i] >= 'A' && s[i] <= 'Z') { if (i == at) s[i] += 32; } else if (s[i] == '-') s[i] = '_'; }
	else { char c = (char)sx_u8("other"); sx_assume(c != 0); s[at] = c; }
	char* t = new char[n + 1]; memcpy(t, s, n + 1);
	langid got = langid_from_rfc1766(t); bool same = same_tag(t, name);
	if (same) { sx_check(got == want, "written differently"); sx_cover("same"); }
	else if (got == langid_unknown) sx_cover("unknown tag"); else { known(t, got); sx_cover("another tag"); }
	delete[] t;
}
SX_CASE(cut)
{
	warm(); langid l = sx_u16("identifier"); const char* name = rfc1766_from_langid(l, none); sx_assume(name != none);
	char s[32]; size_t n = strlen(name), k = sx_choose((uint32_t)n + 2, "length"); memcpy(s, name, n); if (k == n + 1) { s[n] = (char)sx_u8("extra"); sx_assume(s[n] != 0); }
	decide(s, k); if (k == n) sx_cover("whole");
}
SX_CASE(anchors)
{
	struct { const char* t; langid l; } a[] = { { "en", 9 }, { "en-US", 0x409 }, { "en-GB", 0x809 }, { "sl-SI", 0x424 }, { "de-DE", 0x407 }, { "fr-FR", 0x40c }, { "zh-TW", 0x404 }, { "pt-BR", 0x416 }, { "hr-HR", 0x41a }, { "ja-JP", 0x411 } };
	unsigned i = sx_choose(10, "anchor"); sx_check(langid_from_rfc1766(a[i].t) == a[i].l, "identifier of a well-known tag"); sx_check(!strcmp(rfc1766_from_langid(a[i].l, none), a[i].t), "tag of a well-known identifier");
	sx_check(langid_from_rfc1766("") == langid_unknown && langid_from_rfc1766("xx-yy") == langid_unknown, "unknown"); sx_cover("anchors");
}
