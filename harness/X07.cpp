// @bounds combinators over 0..3 parts whose behaviour is arbitrary: at each position of a text of 0..4 units every part either does not match or matches any of 0..2 units (memory of an earlier match included), start at 0 or 1; repetition with minimum and maximum 0..3 or unlimited, greedy and not; texts of 0..3 arbitrary units (char, wchar_t) for the leaf parsers with arbitrary reference unit, set and string of up to 2 units; word lists of 3 words
// @outside more parts or longer texts; parts that change behaviour between calls; locales other than C; SGML variants beyond one entity
// @assume start <= min(end, length of the text)
#include "parse.h"
struct scene {
	static const size_t M = 4; size_t N, start; int fl; const char* text; bool used;
	scene(size_t n = M) { N = sx_choose((uint32_t)n + 1, "length"); start = N ? sx_choose(2, "start") : 0; fl = sx_choose(2, "multiline") ? match_multiline : 0; used = sx_choose(2, "used"); static const char t[] = "abcdefgh"; text = t; }
	ppart mk(const char* name, size_t lo = 0, size_t hi = 2) { return ::mk(name, N, lo, hi, text, fl, used); }
};
SX_CASE(sequence)
{
	scene c(3); size_t k = sx_choose(4, "parts"); ppart p[3]; std::shared_ptr<basic_parser<char>> e[3];
	for (size_t i = 0; i < k; ++i) e[i] = p[i] = c.mk("part");
	basic_sequence<char> s(e, k); bool r = s.match(c.text, c.start, c.N, c.fl);
	size_t pos = c.start, i = 0;
	for (; i < k && p[i]->at(pos) >= 0; ++i) pos += p[i]->at(pos);
	sx_check(r == (i == k), "matches exactly when the parts match one after the other");
	if (r) {
		sx_check(at(s, c.start, pos), "covered region");
		pos = c.start; for (i = 0; i < k; ++i) { size_t l = p[i]->at(pos); sx_check(at(*p[i], pos, pos + l), "region of a part"); pos += l; }
		sx_cover("sequence");
	} else {
		sx_check(!s.interval, "no region"); for (; i < k; ++i) sx_check(!p[i]->interval, "part not reached has no region");
		sx_cover("no sequence");
	}
	s.invalidate(); sx_check(!s.interval, "invalidated"); for (i = 0; i < k; ++i) sx_check(!p[i]->interval, "part invalidated");
}
SX_CASE(branch)
{
	scene c(3); size_t k = sx_choose(4, "parts"); ppart p[3]; std::vector<std::shared_ptr<basic_parser<char>>> e;
	for (size_t i = 0; i < k; ++i) e.push_back(p[i] = c.mk("part"));
	basic_branch<char> b(std::move(e)); bool r = b.match(c.text, c.start, c.N, c.fl);
	size_t i = 0; while (i < k && p[i]->at(c.start) < 0) ++i;
	sx_check(r == (i < k), "matches exactly when an alternative does");
	if (r) {
		sx_check(b.hit_offset == i && at(b, c.start, c.start + p[i]->at(c.start)), "first matching alternative");
		sx_check(at(*p[i], c.start, c.start + p[i]->at(c.start)), "region of the alternative"); sx_cover("branch");
	} else { sx_check(b.hit_offset == SIZE_MAX && !b.interval, "no region"); sx_cover("no branch"); }
	for (size_t j = 0; j < k; ++j) if (j != i) sx_check(!p[j]->interval, "other alternatives have no region");
	b.invalidate(); sx_check(!b.interval && b.hit_offset == SIZE_MAX, "invalidated"); for (i = 0; i < k; ++i) sx_check(!p[i]->interval, "alternative invalidated");
}
SX_CASE(iterations)
{
	scene c; size_t lo = sx_choose(4, "min"), hi = sx_choose(2, "limited") ? lo + sx_choose(3, "max") : SIZE_MAX; bool greedy = sx_choose(2, "greedy");
	ppart p = c.mk("part"); basic_iterations<char> it(p, lo, hi, greedy); bool r = it.match(c.text, c.start, c.N, c.fl);
	// longest and shortest repetition; an empty repetition can be repeated as often as needed
	size_t pos = c.start, n = 0, want = greedy ? hi : lo; bool empty = false;
	while (n < want && p->at(pos) >= 0) { int l = p->at(pos); if (!l) { empty = true; break; } pos += l; ++n; }
	bool m = n >= lo || empty;
	sx_check(r == m, "repetition within the limits");
	if (r) { sx_check(at(it, c.start, pos), "repeated region"); sx_cover("repeated"); }
	else { sx_check(!it.interval, "no region"); sx_cover("not repeated"); }
}
SX_CASE(permutation)
{
	scene c(3); size_t k = sx_choose(4, "parts"); ppart p[3]; std::shared_ptr<basic_parser<char>> e[3];
	for (size_t i = 0; i < k; ++i) e[i] = p[i] = c.mk("part");
	basic_permutation<char> s(e, k); bool r = s.match(c.text, c.start, c.N, c.fl);
	static const unsigned char o3[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
	static const unsigned orders[4] = { 1, 1, 2, 6 }; static const unsigned char o2[2][3] = { { 0, 1, 0 }, { 1, 0, 0 } };
	bool any = false, reported = false;
	for (unsigned o = 0; o < orders[k]; ++o) {
		const unsigned char* q = k == 3 ? o3[o] : o2[o];
		size_t pos = c.start, i = 0; bool same = true;
		for (; i < k; ++i) { part& x = *p[q[i]]; int l = x.at(pos); if (l < 0) break; same &= at(x, pos, pos + l); pos += l; }
		if (i < k) continue;
		any = true; if (r && same && at(s, c.start, pos)) reported = true;
	}
	sx_check(r == any, "matches exactly when some order does");
	if (r) { sx_check(reported, "regions of one order that matches"); sx_cover("permutation"); }
	else { sx_check(!s.interval, "no region"); for (size_t i = 0; i < k; ++i) sx_check(!p[i]->interval, "part has no region"); sx_cover("no permutation"); }
}
// leaf parsers: the first unit of a text
template <class T> struct leaf {
	text<T> s; size_t start, end, n; int fl; bool inv, have; T c;
	leaf(size_t maxn = 2) : s(maxn, "length")
	{
		start = s.n ? sx_choose(2, "start") : 0; end = s.limit; fl = sx_choose(4, "flags"); inv = sx_choose(2, "invert");
		have = start < s.n; c = s[start];
	}
	template <class P> void verify(P& p, bool hit)
	{
		bool r = p.match(s.p, start, end, fl), w = have & (hit != inv);
		sx_check(r == w, "matches exactly the units it is made for");
		sx_check(r ? at(p, start, start + 1) : !p.interval, "region");
		sx_cover(r ? "leaf" : "no leaf");
	}
};
template <class T> static void leaves()
{
	leaf<T> l; const std::locale& L = std::locale::classic(); bool ci = l.fl & match_case_insensitive, ml = l.fl & match_multiline, br = (l.c == '\n') | (l.c == '\r');
	bool pu = (l.c > 32) & (l.c < 127) & !(((unsigned)uc(l.c) - 'A' < 26) | ((unsigned)l.c - '0' < 10));
	switch (sx_choose(8, "leaf")) {
	case 0: { l.inv = false; basic_any_cu<T> p(L); l.verify(p, true); break; }
	case 1: { T c; sx_symbolic(&c, sizeof c, "unit"); basic_cu<T> p(c, l.inv, L); l.verify(p, (l.c == c) | (ci & (lc(l.c) == lc(c)))); break; }
	case 2: { basic_space_cu<T> p(l.inv, L); l.verify(p, sp(l.c) & (ml | !br)); break; }
	case 3: { basic_punct_cu<T> p(l.inv, L); l.verify(p, pu); break; }
	case 4: { basic_space_or_punct_cu<T> p(l.inv, L); l.verify(p, (sp(l.c) & (ml | !br)) | (pu & (ml | !br))); break; }
	case 5: {
		T set[2]; sx_symbolic(set, sizeof set, "set"); size_t n = sx_choose(3, "set size"); for (size_t i = 0; i < n; ++i) sx_assume(set[i] != 0);
		basic_cu_set<T> p(set, n, l.inv, L); size_t hit = SIZE_MAX;
		for (size_t i = n; i-- > 0;) if ((set[i] == l.c) | (ci & (lc(set[i]) == lc(l.c)))) hit = i;
		bool r = p.match(l.s.p, l.start, l.end, l.fl), w = l.have & ((hit != SIZE_MAX) != l.inv);
		sx_check(r == w, "matches exactly the units of the set or the others");
		sx_check(r ? at(p, l.start, l.start + 1) && p.hit_offset == hit : !p.interval && p.hit_offset == SIZE_MAX, "region and which unit"); sx_cover("set"); break; }
	case 6: {
		basic_bol<T> p(l.inv); bool w = (l.start == 0 || (l.s.at[l.start - 1] == '\n') | (l.s.at[l.start - 1] == '\r')) != l.inv;
		sx_check(p.match(l.s.p, l.start, l.end, l.fl) == w, "beginning of a line"); sx_check(w ? at(p, l.start, l.start) : !p.interval, "region"); sx_cover("bol"); break; }
	default: {
		basic_eol<T> p(l.inv); bool w = (!l.have || br) != l.inv;
		sx_check(p.match(l.s.p, l.start, l.end, l.fl) == w, "end of a line"); sx_check(w ? at(p, l.start, l.start) : !p.interval, "region"); sx_cover("eol"); }
	}
}
SX_CASE(leaves_char) { leaves<char>(); }
SX_CASE(leaves_wide) { leaves<wchar_t>(); }
template <class T> static void strings()
{
	leaf<T> l(3); l.inv = false; T w[2]; sx_symbolic(w, sizeof w, "word"); size_t n = sx_choose(3, "word length"); for (size_t i = 0; i < n; ++i) sx_assume(w[i] != 0);
	basic_string<T> p(w, n, std::locale::classic()); bool ci = l.fl & match_case_insensitive, hit = l.start + n <= l.s.n;
	for (size_t i = 0; i < n; ++i) hit &= (l.s[l.start + i] == w[i]) | (ci & (lc(l.s[l.start + i]) == lc(w[i])));
	bool r = p.match(l.s.p, l.start, l.end, l.fl);
	sx_check(r == hit, "matches exactly the word"); sx_check(r ? at(p, l.start, l.start + n) : !p.interval, "region"); sx_cover(r ? "word" : "no word");
}
SX_CASE(strings_char) { strings<char>(); }
SX_CASE(strings_wide) { strings<wchar_t>(); }
SX_CASE(words)
{
	leaf<char> l(3); const std::locale& L = std::locale::classic();
	static const char* w[3] = { "ab", "a", "bca" };
	bool ci = l.fl & match_case_insensitive;
	basic_string_branch<char> p0("ab\0a\0bca\0", 10, L), p1(L, "ab", "a", "bca", nullptr), p2("ab", "a", "bca", nullptr);
	unsigned k = sx_choose(3, "list"); basic_string_branch<char>& p = k == 0 ? p0 : k == 1 ? p1 : p2;
	size_t hit = SIZE_MAX, len = 0;
	for (size_t i = 3; i-- > 0;) {
		size_t n = strlen(w[i]); bool h = l.start + n <= l.s.n;
		for (size_t j = 0; j < n; ++j) h &= (l.s[l.start + j] == w[i][j]) | (ci & (lc(l.s[l.start + j]) == w[i][j]));
		if (h) hit = i, len = n;
	}
	bool r = p.match(l.s.p, l.start, l.end, l.fl);
	sx_check(r == (hit != SIZE_MAX) && p.hit_offset == hit, "first word that matches");
	sx_check(r ? at(p, l.start, l.start + len) : !p.interval, "region"); sx_cover(r ? "word of a list" : "no word of a list");
}
// SGML: the same leaves over a text that may hold an entity
SX_CASE(sgml_leaves)
{
	static const struct { const char* t; size_t n; unsigned c; } g[] = { { "&amp;", 5, '&' }, { "&#9;", 4, 9 }, { "&#x41;", 6, 'A' }, { "&nope;", 1, '&' }, { "&am", 1, '&' }, { "&a &", 1, '&' }, { "x", 1, 'x' }, { " ", 1, ' ' }, { "!", 1, '!' } };
	unsigned k = sx_choose(9, "text"); size_t n = strlen(g[k].t), end = sx_choose((uint32_t)n + 1, "end"); bool whole = end >= g[k].n;
	char* s = new char[end]; memcpy(s, g[k].t, end);
	size_t len = whole ? g[k].n : 1; unsigned c = end == 0 ? 0 : whole ? g[k].c : (unsigned)'&'; bool inv = sx_choose(2, "invert"), have = end != 0, w; const std::locale& L = std::locale::classic();
	bool pu = (c > 32) & (c < 127) & !((((c & ~32u) - 'A') < 26) | (c - '0' < 10)), spc = (c == 32) | (c == 9);
	auto verify = [&](basic_parser<char>& p, bool hit) { bool r = p.match(s, 0, end); w = have && hit != inv; sx_check(r == w, "code point matched"); sx_check(r ? at(p, 0, len) : !p.interval, "region of the code point"); };
	switch (sx_choose(7, "leaf")) {
	case 0: { sgml_cp p("&#x41;", SIZE_MAX, inv, L); verify(p, c == 'A'); break; }
	case 1: { sgml_space_cp p(inv, L); verify(p, spc); break; }
	case 2: { sgml_punct_cp p(inv, L); verify(p, pu); break; }
	case 3: { sgml_space_or_punct_cp p(inv, L); verify(p, pu || spc); break; }
	case 4: { sgml_cp_set p("x&amp;!", SIZE_MAX, inv, L); verify(p, c == 'x' || c == '&' || c == '!'); sx_check(p.hit_offset == (!p.interval || inv ? SIZE_MAX : c == 'x' ? 0 : c == '&' ? 1 : 2), "which code point"); break; }
	case 5: { inv = false; sgml_string p(c == '&' ? "&amp;" : c == 9 ? "&#9;" : c == 'A' ? "A" : "x", SIZE_MAX, L); verify(p, c == '&' || c == 9 || c == 'A' || c == 'x'); break; }
	default: { inv = false; sgml_any_cp p(L); bool r = p.match(s, 0, end); sx_check(r == have, "any code point"); size_t m = k == 3 && end == n ? n : len; sx_check(r ? at(p, 0, m) : !p.interval, "region of any code point"); }
	}
	sx_cover("sgml"); delete[] s;
}
