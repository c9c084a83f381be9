// @bounds documents of up to 4 (thorough, of a choice of 13, 5) pieces, each any of 26 tags, comments, declarations, instructions, marked sections, texts and character references; passed whole or in two parts split at any position, narrow and wide; token trees of the same documents; stacks of up to 3 active tokens; every element name in any letter case and every name of up to 3 arbitrary characters
// @outside longer documents; tags holding '<' in attribute values when passed in parts; entity declarations other than the composed ones; marked sections when rebuilding the source
// @assume the source does not hold the two control characters reserved for token tags (but character references to them may occur)
#include "common.h"
#include <list>
#include <stdex/html.hpp>
using namespace std;
using namespace stdex;
using html::element_t; using html::element_span_t; typedef html::element_traits traits; typedef stdex::parser::html_sequence_t Y;
template <class T> struct doc : html::document<T> { using html::document<T>::m_sequences; using html::document<T>::m_charset; };
enum kind { START, END, SELF, OTHER, TEXT, SECTION, CLOSE };
struct piece { const char* s; kind k; element_t code; Y type; };
static const piece P[] = {
	{ "x", TEXT, element_t::empty, Y::text }, { "<p>", START, element_t::p, Y::element_start }, { "</p>", END, element_t::p, Y::element_end }, { "<B>", START, element_t::b, Y::element_start }, { "</b>", END, element_t::b, Y::element_end },
	{ "<cite>", START, element_t::cite, Y::element_start }, { "</cite>", END, element_t::cite, Y::element_end }, { "<ScRipt>", START, element_t::script, Y::element_start }, { "</script>", END, element_t::script, Y::element_end },
	{ "<td>", START, element_t::td, Y::element_start }, { "</td>", END, element_t::td, Y::element_end }, { "<div>", START, element_t::div, Y::element_start }, { "</div>", END, element_t::div, Y::element_end }, { "<br>", START, element_t::br, Y::element_start }, { "<a href=\"u\">", START, element_t::a, Y::element_start },
	{ "<Q1>", START, element_t::unknown, Y::element_start }, { "</q1>", END, element_t::unknown, Y::element_end }, { "<i/>", SELF, element_t::i, Y::element }, { "<!--c-->", OTHER, element_t::empty, Y::comment }, { "<!d>", OTHER, element_t::empty, Y::declaration }, { "<?i?>", OTHER, element_t::empty, Y::instruction },
	{ "<![CDATA[", SECTION, element_t::empty, Y::CDATA }, { "<![RCDATA[", SECTION, element_t::empty, Y::PCDATA }, { "<![IGNORE[", SECTION, element_t::empty, Y::unknown }, { "<![INCLUDE[", SECTION, element_t::empty, Y::text }, { "]]>", CLOSE, element_t::empty, Y::unknown },
};
struct seq { Y type; size_t s, e; int parent = -1, partner = -1; element_t code = element_t::empty; };
struct model { vector<seq> v; };
// what the pieces mean
static void meaning(model& m, const vector<const piece*>& d)
{
	vector<int> open; size_t at = 0, from = 0, ignored = 0, included = 0; bool special = false; const piece* raw = nullptr;
	auto active = [&] { return open.empty() ? -1 : open.back(); };
	auto text = [&](size_t to) { if (from < to) { m.v.push_back({ Y::text, from, to, active() }); } };
	for (auto p : d) {
		size_t b = at, e = at += strlen(p->s);
		if (raw) { if (p->k == CLOSE) { m.v.push_back({ raw->type, from, b, active() }); raw = nullptr; from = e; } continue; }
		if (ignored) { if (p->k == SECTION) { ++ignored; from = e; } if (p->k == CLOSE) { --ignored; from = e; } continue; }
		if (p->k == CLOSE && included) { text(b); --included; from = e; continue; }
		if (p->k == SECTION) { text(b); from = e; if (p->type == Y::unknown) ++ignored; else if (p->type == Y::text) ++included; else raw = p; continue; }
		if (special) { if (p->k == END && p->code == m.v[open.back()].code) { text(b); from = e; int st = open.back(); m.v.push_back({ p->type, b, e, m.v[st].parent, st, p->code }); m.v[st].partner = (int)m.v.size() - 1; open.pop_back(); special = false; } continue; }
		if (p->k == TEXT || p->k == CLOSE) continue;
		text(b); from = e; seq q = { p->type, b, e, active(), -1, p->code }; int me = (int)m.v.size();
		if (p->k == START || p->k == SELF) {
			while (!open.empty() && !traits::may_contain(m.v[open.back()].code, p->code)) { m.v[open.back()].partner = me; q.parent = m.v[open.back()].parent; open.pop_back(); }
			if (!open.empty()) q.parent = open.back();
			if (p->k == START) { if (traits::span(p->code) == element_span_t::immediate) q.partner = me; else { open.push_back(me); special = p->code == element_t::script; } }
		} else if (p->k == END) for (size_t j = open.size(); j--;) if (m.v[open[j]].code == p->code) { q.partner = open[j]; q.parent = m.v[open[j]].parent; m.v[open[j]].partner = me; open.resize(j); break; }
		m.v.push_back(q);
	}
	text(at);
}
template <class T> static void same(const doc<T>& d, const model& m)
{
	sx_check(d.m_sequences.size() == m.v.size(), "all of the parts, and nothing else");
	auto is = [&](const html::sequence* s, int i) { return i < 0 ? !s : s == d.m_sequences[i].get(); };
	for (size_t i = 0; i < m.v.size(); ++i) {
		const html::sequence* s = d.m_sequences[i].get(); const seq& r = m.v[i];
		sx_check(s->type == r.type && s->interval.start == r.s && s->interval.end == r.e, "each part where it is"); sx_check(is(s->parent, r.parent), "what it is part of");
		if (r.type == Y::element_start) { auto e = static_cast<const html::element_start*>(s); sx_check(e->code == r.code && is(e->end, r.partner), "a starting tag and what ends it"); }
		else if (r.type == Y::element) sx_check(static_cast<const html::element*>(s)->code == r.code, "an element");
		else if (r.type == Y::element_end) { auto e = static_cast<const html::element_end*>(s); sx_check(e->code == r.code && is(e->start, r.partner), "an ending tag and what it ends"); }
	}
}
static vector<const piece*> compose(size_t max, size_t from, size_t kinds) { vector<const piece*> d; for (size_t n = sx_choose((uint32_t)max + 1, "pieces"); n--;) d.push_back(P + from + sx_choose((uint32_t)kinds, "piece")); return d; }
template <class T> static basic_string<T> source(const vector<const piece*>& d) { basic_string<T> s; for (auto p : d) for (auto c = p->s; *c; ++c) s += (T)*c; return s; }
template <class T> static void structure(size_t max, bool parts, size_t from = 0, size_t kinds = 26)
{
	uint64_t blocks = sx_live_blocks();
	{
		auto d = compose(max, from, kinds); basic_string<T> s = source<T>(d); model m; meaning(m, d); doc<T> x;
		T* t = new T[s.size() + 1]; memcpy(t, s.data(), s.size() * sizeof(T));
		if (parts) { size_t k = sx_choose((uint32_t)s.size() + 1, "split"); x.append(t, k); T* u = new T[s.size() - k + 1]; memcpy(u, s.data() + k, (s.size() - k) * sizeof(T)); delete[] t; t = nullptr; x.append(u, s.size() - k); delete[] u; x.finalize(); sx_cover("parts"); }
		else { x.assign(t, s.size()); sx_cover("whole"); }
		delete[] t; sx_check(x.source() == s, "the source is kept"); same(x, m);
		if (!parts && d.size() < 3 && sx_choose(2, "again")) { x.assign((const T*)source<T>({ P, P + 1 }).data(), 4); model o; meaning(o, { P, P + 1 }); same(x, o); }
	}
	sx_check(sx_live_blocks() == blocks, "no memory is leaked");
}
SX_CASE(structure_char) { structure<char>(4, false); }
SX_CASE(structure_wide) { structure<wchar_t>(sx_bound(2, 3), false); }
SX_CASE(parts_char) { structure<char>(sx_bound(2, 3), true); }
SX_CASE(parts_wide) { structure<wchar_t>(2, true); }
SX_CASE(T_deep) { structure<char>(5, false, 12, 13); }
// the token tree
typedef html::parser<wchar_t, char_traits<wchar_t>, allocator<wchar_t>> tokens; typedef html::text_token<wchar_t> text_token;
static const wchar_t* const inner[] = { L"x", L"&amp;", L" \n", L"&lt;b&gt;", L"<!--c-->", L"<p>", L"</p>", L"<cite>", L"</cite>", L"<b>", L"</b>", L"<td>", L"</td>", L"<script>", L"</script>", L"<style>", L"</style>", L"@import url('u');", L"<a href=\"u\" class=c>", L"<img alt=\"a&amp;\" title=\" \" src='v'/>", L"<br>", L"<q1>", L"<!d>", L"<h1>", L"<address>" };
static wstring plain(const wstring& s) { wstring r; sgml2strcat(r, s.data(), s.size()); return r; }
static void checked(const text_token* t, size_t n)
{
	size_t from = 0, to = 0; bool first = true;
	for (auto& m : t->mapping) { sx_check(m.from <= n && m.to <= t->text.size() && (first || (m.from >= from && m.to >= to)), "positions of the text in the source"); from = m.from; to = m.to; first = false; }
}
static void rebuild(const vector<const wchar_t*>& d)
{
	uint64_t blocks = sx_live_blocks();
	{
		wstring s; for (auto p : d) s += p; doc<wchar_t> x; x.assign(s.data(), s.size()); tokens p(x); auto t = p.parse(); wstring o(L"#"); p.link(o, t);
		bool quotes = s.find(L'\'') != wstring::npos;
		if (quotes) { sx_check(plain(o).size() == plain(s).size() + 1, "rebuilt"); } else sx_check(o.size() == s.size() + 1 && sx_memeq(o.data() + 1, s.data(), s.size() * sizeof(wchar_t)), "the source is rebuilt from the tokens"); sx_check(o[0] == L'#', "what was there stays"); sx_cover("rebuilt");
		set<const html::sequence*> seen; for (auto& k : p.tokens()) if (auto y = dynamic_cast<const text_token*>(k.get())) checked(y, s.size());
	}
	sx_check(sx_live_blocks() == blocks, "no memory is leaked");
}
SX_CASE(rebuilding) { vector<const wchar_t*> d; for (size_t n = sx_choose(sx_bound(3, 4) + 1, "pieces"); n--;) d.push_back(inner[sx_choose(25, "piece")]); rebuild(d); }
SX_CASE(rebuilding_text) { static wchar_t t[5]; for (int i = 0; i < 4; ++i) { uint8_t c = sx_u8("unit"); sx_assume(c == ' ' || c == 'a' || c == '\n' || c == 0x7f || c == '"'); t[i] = c; } vector<const wchar_t*> d; if (sx_choose(2, "in")) d.push_back(L"<p>"); d.push_back(t); if (sx_choose(2, "end")) d.push_back(L"</p>"); rebuild(d); }
// any text at all: what is found lies in it, in order, and rebuilding is stable
static void any(const wstring& s, bool stable)
{
	uint64_t blocks = sx_live_blocks();
	{
		doc<wchar_t> x; wchar_t* t = new wchar_t[s.size()]; memcpy(t, s.data(), s.size() * sizeof(wchar_t)); x.assign(t, s.size()); delete[] t; size_t at = 0;
		for (size_t i = 0; i < x.m_sequences.size(); ++i) { auto& q = x.m_sequences[i]; sx_check(q->interval.start >= at && q->interval.end >= q->interval.start && q->interval.end <= s.size(), "parts in order"); at = q->interval.end; bool known = !q->parent; for (size_t k = 0; k < i; ++k) known = known || x.m_sequences[k].get() == q->parent; sx_check(known, "part of something before"); }
		tokens p(x); wstring o, o2; p.link(o, p.parse());
		if (stable) { doc<wchar_t> y; y.assign(o.data(), o.size()); tokens r(y); r.link(o2, r.parse()); sx_check(o2.size() == o.size() && sx_memeq(o2.data(), o.data(), o.size() * sizeof(wchar_t)), "what is rebuilt means the same"); }
		for (auto& k : p.tokens()) if (auto y = dynamic_cast<const text_token*>(k.get())) checked(y, s.size()); sx_cover(x.m_sequences.size() > 1 ? "parts" : "one");
	}
	sx_check(sx_live_blocks() == blocks, "no memory is leaked");
}
SX_CASE(any_text)
{
	static const char* const pre[] = { "", "<", "x<p>", "<script>", "<b><", "<![", "&" }; const char* a = pre[sx_choose(7, "prefix")]; wstring s; for (; *a; ++a) s += (wchar_t)*a;
	for (size_t n = sx_choose(sx_bound(4, 5) + 1, "n"); n--;) { uint8_t c = sx_u8("unit"); bool in = false; for (const char* k = "<>/p!-[]&\" ="; *k; ++k) in = in | (c == (uint8_t)*k); sx_assume(in); s += (wchar_t)c; }
	any(s, false);
}
SX_CASE(any_units) { wstring s; for (size_t n = sx_choose(4, "n"); n--;) { uint32_t c = sx_u32("unit"); sx_assume(c && c != 0x12 && c != 0x13); s += (wchar_t)c; } any(s, true); }
SX_CASE(sections) { static const wchar_t* const S[] = { L"x", L"<script>", L"<style>", L"<cite>", L"<p>", L"</p>", L"</style>", L"<![IGNORE[", L"<![INCLUDE[", L"<![CDATA[", L"]]>" }; wstring s; for (size_t n = sx_choose(sx_bound(4, 5), "pieces"); n--;) s += S[sx_choose(11, "piece")]; any(s, false); }
SX_CASE(traits) { element_t p = (element_t)(1 + sx_choose(102, "parent")), c = (element_t)(1 + sx_choose(102, "child")); bool m = traits::may_contain(p, c); if (c == element_t::comment) { sx_check(m, "a comment may occur anywhere"); return; } if (traits::is_heading(p) || p == element_t::p) sx_check(m == traits::is_inline(c), "text level content"); if (m && traits::is_fontstyle(p)) sx_check(!traits::is_block(c), "no blocks in font styles"); if (m && (p == element_t::br || p == element_t::img || p == element_t::hr || p == element_t::meta || p == element_t::link || p == element_t::input)) sx_check(false, "empty elements contain nothing"); sx_check(traits::is_flow(c) == (traits::is_block(c) || traits::is_inline(c)) && traits::may_contain(element_t::unknown, c) && traits::may_contain(p, element_t::unknown), "classes"); sx_cover(m ? "may" : "may not"); }
// what a text says never becomes a reference to a token
SX_CASE(forged)
{
	uint8_t h = sx_u8("digit"); sx_assume((h >= '0' && h <= '9') || (h >= 'A' && h <= 'F')); bool attr = sx_choose(2, "attribute"), tag = sx_choose(2, "tag"); wstring s; if (attr) s = L"<img alt=\""; s += L"&#x12;"; s += (wchar_t)h; s += L"&#19;"; if (attr) s += L"\">"; if (tag) s += L"<b>";
	doc<wchar_t> x; x.assign(s.data(), s.size()); tokens p(x); auto t = p.parse(); wstring o; p.link(o, t); sx_check(o.find((wchar_t)h) != wstring::npos && (!tag || o.find(L"<b>") != wstring::npos), "the text is kept"); sx_cover("forged");
}
SX_CASE(progress)
{
	struct : stdex::progress<size_t> { size_t a = 9, b = 0, last = 0, left = 9; void set_range(size_t x, size_t y) override { a = x; b = y; } void set(size_t v) override { sx_check(v >= last && v <= b, "progress goes forward"); last = v; } bool cancel() override { return !left--; } } g; g.left = sx_choose(5, "left");
	wstring s = L"<p>x</p>y"; doc<wchar_t> x; x.assign(s.data(), s.size()); tokens p(x, nullptr, 0, false, &g); bool stopped = false; try { p.parse(); } catch (const user_cancelled&) { stopped = true; } sx_check(g.a == 0 && g.b == 9 && stopped == (g.left > 9), "range and cancelling"); if (stopped) sx_cover("stopped");
	bool frames = sx_choose(2, "frames"), threw = false; doc<wchar_t> f; f.assign(L"<frameset>", 10); tokens q(f, nullptr, 0, frames); try { q.parse(); } catch (const invalid_argument&) { threw = true; } sx_check(threw == !frames, "frames are refused unless asked for");
}
struct start_token : html::starting_token<wchar_t> { start_token(const wchar_t* name) : starting_token(nullptr, 0, name, 1) {} };
struct any_token : html::token { any_token() : token(html::token_t::complete) {} };
struct stack_parser : tokens { using tokens::tokens; using tokens::m_tokens; };
template <class T> static void tagged()
{
	any_token a; basic_string<T> s(sx_choose(3, "before"), (T)'x'); size_t at = s.size(), n = a.append_tag(s); sx_check(n && s.size() == at + n, "count"); if (sx_choose(2, "more")) s += (T)'y'; size_t o = at; sx_check(html::token::parse_tag(s.data(), o) == &a && o == at + n, "a tag designates its token");
	o = at + 1; sx_check(!html::token::parse_tag(s.data(), o) && o == at + 1, "not a tag"); o = s.size(); sx_check(!html::token::parse_tag(s.data(), o), "not a tag"); s[at + n - 1] = 0; o = at; sx_check(!html::token::parse_tag(s.data(), o) && o == at, "an unfinished tag"); sx_cover("tag");
}
SX_CASE(tags_char) { tagged<char>(); }
SX_CASE(tags_wide) { tagged<wchar_t>(); }
static vector<html::token*> listed(const html::token_list& l) { return vector<html::token*>(l.begin(), l.end()); }
SX_CASE(stacks)
{
	doc<wchar_t> x; start_token t0(L"a"), t1(L"b"), t2(L"c"); html::token* T[] = { &t0, &t1, &t2 }; html::token_list a, b; wstring s(L"#"), e(L"#");
	for (size_t n = sx_choose(4, "active"); n--;) a.push_back(T[sx_choose(3, "token")]); for (size_t n = sx_choose(4, "wanted"); n--;) b.push_back(T[sx_choose(3, "token")]);
	vector<html::token*> u = listed(a), v = listed(b), w = u; size_t c = 0; while (c < u.size() && c < v.size() && u[c] == v[c]) ++c;
	stack_parser p(x);
	switch (sx_choose(3, "what")) {
	case 0: {
		auto i = p.end_tokens(s, a, b); sx_check(listed(a) == vector<html::token*>(u.begin(), u.begin() + c), "what is not wanted is ended"); sx_check(i == next(b.cbegin(), c), "where to start"); size_t o = 1;
		for (size_t k = u.size(); k-- > c;) { auto t = static_cast<const text_token*>(html::token::parse_tag(s.data(), o)); sx_check(t && t->type == html::token_t::ending && t->text == wstring(L"</") + static_cast<start_token*>(u[k])->name + L">", "ended in reverse order"); } sx_check(o == s.size() && p.m_tokens.size() == u.size() - c, "and nothing else"); sx_cover("ended"); break; }
	case 1: { tokens::start_tokens(s, a, b, next(b.cbegin(), c)); u.insert(u.end(), v.begin() + c, v.end()); sx_check(listed(a) == u, "started"); for (size_t k = c; k < v.size(); ++k) v[k]->append_tag(e); sx_check(s == e, "started in order"); sx_cover("started"); break; }
	case 2: { tokens::merge(a, b); for (auto t : v) { bool in = false; for (auto y : u) in = in || y == t; if (!in) u.push_back(t); } sx_check(listed(a) == u, "the union of two lists"); sx_cover("merged"); break; }
	}
}
SX_CASE(inserted)
{
	doc<wchar_t> x; start_token t0(L"a"), t1(L"b"); any_token c0, c1; html::token* C[] = { &c0, &c1 }; html::token_list active, e; html::inserted_token_list l; stack_parser p(x); wstring s, r; bool pre = sx_choose(2, "active"); if (pre) active.push_back(&t0); vector<html::token*> left; html::token* cur = pre ? &t0 : nullptr; size_t ended = 0;
	for (unsigned i = 0; i < 2; ++i) { html::inserted_token k; k.token = C[i]; if (sx_choose(2, "ending")) C[i]->type = html::token_t::ending; unsigned w = sx_choose(3, "wants"); html::token* want = w == 0 ? nullptr : w == 1 ? (html::token*)&t0 : &t1; if (want) k.active_tokens.push_back(want); k.word_index = sx_choose(2, "word"); k.after_word = sx_choose(2, "after"); bool here = k.word_index == 1 && !k.after_word; if (here) { if (C[i]->type != html::token_t::ending && cur != want) { if (cur) ++ended; cur = want; } } else left.push_back(C[i]); l.push_back(k); }
	p.append_inserted_tokens(s, l, 1, false, active); sx_check(l.size() == left.size(), "each is inserted once, at its place"); size_t i = 0; for (auto& k : l) sx_check(k.token == left[i++], "the others stay"); sx_check(active.size() == (cur != nullptr) && (!cur || active.front() == cur) && p.m_tokens.size() == ended, "with the tokens it wants started");
	size_t o = 0, found = 0; while (o < s.size()) { auto t = html::token::parse_tag(s.data(), o); sx_check(t, "tags only"); if (t == &c0 || t == &c1) ++found; } sx_check(found == 2 - left.size(), "inserted"); sx_cover("inserted");
}
static const char* const N[] = { "a", "abbr", "acronym", "address", "applet", "area", "b", "base", "basefont", "bdo", "bgsound", "big", "blink", "blockquote", "body", "br", "button", "caption", "center", "cite", "code", "col", "colgroup", "comment", "dd", "del", "dfn", "dir", "div", "dl", "dt", "em", "embed", "fieldset", "font", "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "hr", "html", "i", "iframe", "img", "input", "ins", "isindex", "kbd", "label", "legend", "li", "link", "listing", "map", "marquee", "menu", "meta", "nextid", "nobr", "noembed", "noframes", "noscript", "object", "ol", "optgroup", "option", "p", "param", "plaintext", "pre", "q", "rt", "ruby", "s", "samp", "script", "select", "small", "span", "strike", "strong", "style", "sub", "sup", "table", "tbody", "td", "textarea", "tfoot", "th", "thead", "title", "tr", "tt", "u", "ul", "var", "wbr", "xmp" };
static const size_t NN = sizeof(N) / sizeof(*N);
SX_CASE(names_char) { size_t k = sx_choose((uint32_t)NN, "name"), n = strlen(N[k]); char* t = new char[n + 1]; t[n] = 0; bool up = sx_choose(2, "upper"), z = sx_choose(2, "z"); for (size_t i = 0; i < n; ++i) t[i] = up && N[k][i] >= 'a' ? N[k][i] - 32 : N[k][i]; sx_check((unsigned)html::element::element_code(t, z ? SIZE_MAX : n) == 1 + k, "the code of each element"); sx_check(html::element::element_code(t, n - 1) != (element_t)(1 + k), "a part of a name is not it"); delete[] t; sx_cover("name"); }
template <class T> static void other_names()
{
	size_t n = sx_choose(4, "n"); T* t = new T[n + 1]; for (size_t i = 0; i < n; ++i) { t[i] = (T)sx_u8("unit"); sx_assume(t[i] != 0); } element_t c = html::element::element_code(t, n); size_t hit = 0;
	for (size_t k = 0; k < NN; ++k) { if (strlen(N[k]) != n || !n) continue; bool eq = true; for (size_t i = 0; i < n; ++i) { uint32_t u = (uint32_t)(make_unsigned_t<T>)t[i]; if (u >= 'A' && u <= 'Z') u += 32; eq = eq & (u == (uint32_t)N[k][i]); } if (eq) hit = k + 1; }
	sx_check(c == (hit ? (element_t)hit : element_t::unknown), "names are known exactly"); sx_cover(hit ? "known" : "unknown"); delete[] t;
}
SX_CASE(other_names_char) { other_names<char>(); }
SX_CASE(other_names_wide) { other_names<wchar_t>(); }
// attributes that hold an URI, or text for people, as HTML 4.01 defines them
template <class T> static void attributes()
{
	static const char* const U[] = { "a.href", "applet.codebase", "area.href", "base.href", "blockquote.cite", "body.background", "del.cite", "form.action", "frame.longdesc", "frame.src", "head.profile", "iframe.longdesc", "iframe.src", "img.longdesc", "img.src", "img.usemap", "input.src", "input.usemap", "ins.cite", "link.href", "object.classid", "object.codebase", "object.data", "object.usemap", "q.cite", "script.src" };
	static const char* const L[] = { "applet.alt", "area.alt", "img.alt", "input.alt", "table.summary", "td.abbr", "th.abbr", "p.title", "a.title", "table.title" };
	static const char* const O[] = { "a.class", "a.id", "a.hre", "a.hreflang", "a.name", "a.type", "img.sr", "img.srcx", "img.width", "img.ismap", "input.value", "p.href", "p.src", "p.alt", "table.alt", "td.summary", "form.method", "object.type", "link.rel", "q.lang", "a.titl", "a.titles" };
	unsigned k = sx_choose(58, "attribute"); const char* a = k < 26 ? U[k] : k < 36 ? L[k - 26] : O[k - 36]; unsigned up = sx_choose(3, "case"), tail = sx_choose(3, "end");
	const char* d = std::strchr(a, '.'); element_t c = html::element::element_code(a, (size_t)(d - a)); size_t n = strlen(++d); bool term = tail == 1; T* t = new T[n + (tail ? 1 : 0)]; for (size_t i = 0; i < n; ++i) t[i] = (T)(up == 1 || (up == 2 && i % 2) ? d[i] - 32 : d[i]);
	if (term) t[n] = 0; else if (tail) t[n] = 'x';
	sx_check(traits::is_uri(c, t, term ? SIZE_MAX : n) == (k < 26), "attributes that hold an URI"); sx_check(traits::is_localizable(c, t, term ? SIZE_MAX : n) == (k >= 26 && k < 36), "attributes that hold text"); sx_cover(k < 26 ? "uri" : k < 36 ? "text" : "other"); delete[] t;
}
SX_CASE(attributes_char) { attributes<char>(); }
SX_CASE(attributes_wide) { attributes<wchar_t>(); }
// the character set a document declares
SX_CASE(charset)
{
	static const char* const cs[] = { "utf-8", "windows-1250", "UTF-16" }; static const charset_id id[] = { charset_id::utf8, charset_id::windows1250, charset_id::utf16 }; unsigned a = sx_choose(3, "first"), b = sx_choose(4, "second"); bool swap = sx_choose(2, "order"), up = sx_choose(2, "case");
	auto meta = [&](unsigned i) { string q = up ? "HTTP-Equiv=\"content-TYPE\"" : "http-equiv=Content-Type", c = string("content=\"text/html; charset=") + cs[i] + "\""; return "<meta " + (swap ? c + " " + q : q + " " + c) + ">"; };
	string s = "<head>" + meta(a); if (b < 3) s += meta(b); doc<char> d; d.assign(s.data(), s.size()); sx_check(d.m_charset == id[a], "the first declaration counts"); d.assign("x", 1); sx_check(d.m_charset == charset_id::system, "none"); sx_cover("charset");
}
SX_CASE(entities)
{
	string s = "<!ENTITY % v \"INCLUDE\"><!ENTITY % w 'IGNORE'>"; bool two = sx_choose(2, "words"); if (two) s = "<!ENTITY % v \"IN\"><!ENTITY % w \"IGNORE \">";  unsigned k = sx_choose(3, "which"); static const char* const E[] = { "<![%v;[x]]>y", "<![%w;[x]]>y", "<![%u;[x]]>y" }; s += E[k]; doc<char> d; bool threw = false; try { d.assign(s.data(), s.size()); } catch (const runtime_error&) { threw = true; }
	sx_check(threw == (k == 2), "an unknown entity is reported"); if (!threw && !two) { sx_check(d.m_sequences.size() == (k ? 3 : 4), "a section under an entity's condition"); sx_check(d.m_sequences.back()->type == Y::text && d.m_sequences.back()->interval.size() == 1, "text"); sx_cover("entity"); }
}
