// @bounds integers: every text of 0..4 arbitrary units (char; thorough 0..5), narrow and wide, started at 0 or 1, memory ends where reading must stop; thousand-separated: groups of 0..4 digits (one digit of each arbitrary) around 0..2 (thorough 0..3) commas and points; Roman: every text of 0..5 (thorough 0..7) units over the nine digits and an other unit, and canonical numerals 1..3999; composites: parts whose behaviour is arbitrary at each position of a text of 0..3 units (0..4 for scientific), with each optional part present or absent, and earlier results left in the parts
// @outside values beyond 2^64 (integers wrap); longer texts; digits made of several units
// @assume start <= min(end, length)
#include "parse.h"
#include <cmath>
template <class T> struct digits {
	std::shared_ptr<basic_parser<T>> d[16];
	digits() { static const char h[] = "0123456789abcdef"; for (int i = 0; i < 16; ++i) d[i] = std::make_shared<basic_cu<T>>(T(h[i])); }
	std::shared_ptr<basic_integer10<T>> dec() { return std::make_shared<basic_integer10<T>>(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9]); }
	std::shared_ptr<basic_integer16<T>> hex() { return std::make_shared<basic_integer16<T>>(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8], d[9], d[10], d[11], d[12], d[13], d[14], d[15]); }
};
template <class T> static void integers()
{
	bool hex = sx_choose(2, "hexadecimal"); text<T> s(sx_bound(3, 4), "length"); size_t start = s.n ? sx_choose(2, "start") : 0;
	digits<T> d; std::shared_ptr<basic_integer<T>> p; if (hex) p = d.hex(); else p = d.dec();
	bool used = sx_choose(2, "used"); if (used) { T w[3] = { '4', '2', 0 }; sx_check(p->match(w, 0, 3) && p->value == (hex ? 0x42 : 42), "earlier match"); }
	bool r = p->match(s.p, start, s.limit);
	size_t e = start; uint64_t v = 0;
	for (; e < s.n; ++e) {
		T c = s.at[e]; unsigned dv = (unsigned)c - '0' < 10 ? (unsigned)c - '0' : hex && (unsigned)c - 'a' < 6 ? (unsigned)c - 'a' + 10 : 99;
		if (dv == 99) break;
		v = v * (hex ? 16 : 10) + dv;
	}
	sx_check(r == (e > start), "matches exactly when there is a digit");
	if (r) { sx_check(at(*p, start, e), "longest run of digits"); sx_check(p->value == v, "value"); sx_cover("integer"); }
	else { sx_check(!p->interval && p->value == 0, "no value"); sx_cover("no integer"); }
	p->invalidate(); sx_check(!p->interval && p->value == 0, "invalidated");
}
SX_CASE(integers_char) { integers<char>(); }
SX_CASE(integers_wide) { integers<wchar_t>(); }
SX_CASE(thousands)
{
	// digits, then up to two (thorough three) separators with digits, then an other unit or the end
	char b[24]; size_t n = 0; unsigned cls[24]; uint64_t v[24] = {};
	auto run = [&](unsigned k) { for (unsigned i = 0; i < k; ++i) { v[n] = i == 1 ? sx_range(0, 9, "digit") : (n * 7 + 3) % 10; cls[n] = 0; b[n] = char('0' + v[n]); ++n; } };
	run(sx_choose(5, "digits"));
	for (unsigned g = sx_choose(sx_bound(3, 3), "separators"); g; --g) { unsigned c = 1 + sx_choose(2, "separator"); cls[n] = c; b[n++] = c == 1 ? ',' : '.'; run(sx_choose(5, "digits")); }
	if (sx_choose(2, "other")) { cls[n] = 3; b[n++] = 'x'; }
	char* s = new char[n]; memcpy(s, b, n);
	basic_integer10ts<char> p(digits<char>().dec(), std::make_shared<basic_cu_set<char>>(",."));
	if (sx_choose(2, "used")) sx_check(p.match("1,234", 0, 5) && p.value == 1234 && p.digit_count == 4 && p.has_separators, "earlier match");
	bool r = p.match(s, 0, n);
	size_t e = 0; uint64_t w = 0; while (e < n && cls[e] == 0) w = w * 10 + v[e++];
	size_t count = e; bool sep = false; unsigned which = 0;
	if (e && e <= 3) while (e < n && (cls[e] == 1 || cls[e] == 2) && (!which || which == cls[e])) {
		size_t q = e + 1; while (q < n && cls[q] == 0) ++q;
		if (q != e + 4) break;
		w = w * 1000 + v[e + 1] * 100 + v[e + 2] * 10 + v[e + 3]; which = cls[e]; sep = true; count += 3; e = q;
	}
	sx_check(r == (e != 0), "matches exactly when there is a digit");
	if (r) { sx_check(at(p, 0, e), "region"); sx_check(p.value == w, "value"); sx_check(p.digit_count == count && p.has_separators == sep, "digits and separators"); sx_cover(sep ? "separated" : "plain"); }
	else { sx_check(!p.interval && p.value == 0 && p.digit_count == 0 && !p.has_separators, "nothing is left of an earlier match"); sx_cover("none"); }
	delete[] s;
}
static const char RD[] = "IVXLCDMPQ"; static const unsigned RV[] = { 1, 5, 10, 50, 100, 500, 1000, 5000, 10000 };
static basic_roman_numeral<char> roman()
{
	std::shared_ptr<basic_parser<char>> d[9]; for (int i = 0; i < 9; ++i) d[i] = std::make_shared<basic_cu<char>>(RD[i]);
	return basic_roman_numeral<char>(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]);
}
SX_CASE(roman_any)
{
	size_t n = sx_choose(sx_bound(4, 5) + 1, "length"); char* s = new char[n]; unsigned v[8] = {};
	for (size_t i = 0; i < n; ++i) {
		unsigned k = sx_choose(10, "digit"); s[i] = k < 9 ? RD[k] : '?'; v[i] = k < 9 ? RV[k] : 0;
		if (k == 9) n = i + 1;
	}
	auto p = roman(); if (sx_choose(2, "used")) sx_check(p.match("XIV", 0, 3) && p.value == 14, "earlier match");
	bool r = p.match(s, 0, n);
	sx_check(r == (n && v[0]), "matches exactly when there is a digit");
	if (r) {
		size_t e = p.interval.end; sx_check(p.interval.start == 0 && e && e <= n, "region");
		// subtractive rule: a digit before a bigger one is subtracted
		int64_t w = 0; bool ok = true;
		for (size_t i = 0; i < e; ++i) { ok &= v[i] != 0; w += i + 1 < e && v[i + 1] > v[i] ? -(int64_t)v[i] : v[i]; }
		sx_check(ok, "digits only"); sx_check(p.value == (uint64_t)w, "value of the matched digits"); 
		// digits that do not increase are always taken, up to three in a row
		size_t q = 1; while (q < n && v[q] && v[q] <= v[q - 1] && !(q >= 3 && v[q] == v[q - 1] && v[q] == v[q - 2] && v[q] == v[q - 3])) ++q;
		sx_check(e + 1 >= q, "the longest numeral is taken"); sx_cover("numeral");
	} else { sx_check(!p.interval && p.value == 0, "nothing is left"); sx_cover("no numeral"); }
	delete[] s;
}
SX_CASE(roman_canonical)
{
	static const char* const one[] = { "", "I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX" };
	unsigned d[4] = { sx_choose(4, "thousands"), sx_choose(10, "hundreds"), sx_choose(10, "tens"), sx_choose(10, "ones") };
	char s[24]; size_t n = 0;
	for (unsigned k = 0; k < 4; ++k) for (const char* o = one[(unsigned)sx_concrete(d[k])]; *o; ++o) s[n++] = RD[2 * (3 - k) + (*o == 'I' ? 0 : *o == 'V' ? 1 : 2)];
	s[n] = sx_choose(2, "terminated") ? 0 : ' ';
	unsigned v = d[0] * 1000 + d[1] * 100 + d[2] * 10 + d[3];
	auto p = roman(); bool r = p.match(s, 0, n + 1);
	sx_check(r == (v != 0), "matched"); if (r) sx_check(at(p, 0, n) && p.value == v, "canonical numeral read as a whole"); sx_cover("canonical");
}
// composites over arbitrary parts
struct signs {
	ppart p[3]; const char* text; size_t N, start; int fl; bool used;
	signs(size_t n, bool optional = true) { N = sx_choose((uint32_t)n + 1, "length"); start = 0; fl = sx_choose(2, "multiline") ? match_multiline : 0; used = sx_choose(2, "used"); text = "abcdefgh"; for (auto& x : p) if (!optional || sx_choose(2, "sign present")) x = mk("sign", N, 1, 1, text, fl, used); }
	ppart part_of(const char* name, size_t lo = 1, size_t hi = 1) { return mk(name, N, lo, hi, text, fl, used); }
	// region of the sign at the start; which sign
	size_t sign(int& which) { which = -1; for (int i = 0; i < 3; ++i) if (p[i] && p[i]->at(start) >= 0) { which = i; return start + p[i]->at(start); } return start; }
	void check_signs(int which, size_t e) { for (int i = 0; i < 3; ++i) if (p[i]) sx_check(i == which ? at(*p[i], start, e) : !p[i]->interval, "region of a sign"); }
};
SX_CASE(signed_numeral)
{
	signs g(3); ppart num = g.part_of("number", 1, 2);
	basic_signed_numeral<char> p(g.p[0], g.p[1], g.p[2], num); bool r = p.match(g.text, 0, g.N, g.fl);
	int w; size_t q = g.sign(w); int l = num->at(q);
	sx_check(r == (l >= 0), "sign and number"); g.check_signs(r ? w : -1, q); region_is(*num, r, q, q + l, "number"); region_is(p, r, 0, q + l, "region");
	sx_cover(r ? "signed" : "not signed");
}
SX_CASE(fraction)
{
	signs g(3, false); ppart a = g.part_of("numerator", 1, 2), b = g.part_of("line"), c = g.part_of("denominator", 1, 2);
	basic_fraction<char> p(a, b, c); bool r = p.match(g.text, 0, g.N, g.fl);
	int x = a->at(0), y = x < 0 ? -1 : b->at(x), z = y < 0 ? -1 : c->at(x + y); bool w = z >= 0;
	sx_check(r == w, "fraction"); region_is(*a, w, 0, x, "numerator"); region_is(*b, w, x, x + y, "line"); region_is(*c, w, x + y, x + y + z, "denominator"); region_is(p, w, 0, x + y + z, "region"); sx_cover(w ? "fraction" : "no fraction");
}
static size_t spaces(part& sp, size_t q) { while (sp.at(q) > 0) q += sp.at(q); return q; }
SX_CASE(score)
{
	signs g(4, false); ppart a = g.part_of("home"), b = g.part_of("separator"), c = g.part_of("guest"), s = g.part_of("space"); s->fl &= ~match_multiline;
	basic_score<char> p(a, b, c, s); bool r = p.match(g.text, 0, g.N, g.fl);
	size_t ae = 0, bs = 0, be = 0, cs = 0, ce = 0; bool w = a->at(0) >= 0;
	if (w) { ae = a->at(0); bs = spaces(*s, ae); w = b->at(bs) >= 0; }
	if (w) { be = bs + b->at(bs); cs = spaces(*s, be); w = c->at(cs) >= 0; }
	if (w) ce = cs + c->at(cs);
	sx_check(r == w, "score"); region_is(*a, w, 0, ae, "home"); region_is(*b, w, bs, be, "separator"); region_is(*c, w, cs, ce, "guest"); region_is(p, w, 0, ce, "region"); sx_cover(w ? "score" : "no score");
}
SX_CASE(mixed)
{
	signs g(4); ppart i = g.part_of("integer"), s = g.part_of("space"), f = g.part_of("fraction"); s->fl &= ~match_multiline;
	basic_mixed_numeral<char> p(g.p[0], g.p[1], g.p[2], i, s, f); bool r = p.match(g.text, 0, g.N, g.fl);
	int w; size_t q = g.sign(w), ie = q, fs = q, fe = q; bool hi = i->at(q) >= 0, hf = false;
	if (hi) { ie = q + i->at(q); fs = spaces(*s, ie); if (fs > ie && f->at(fs) >= 0) hf = true; }
	if (!hf && !(hi && fs > ie) && f->at(q) >= 0) { hf = true; hi = false; fs = q; }
	if (hf) fe = fs + f->at(fs);
	bool want = hi || hf; sx_check(r == want, "mixed numeral"); g.check_signs(want ? w : -1, q); region_is(*i, hi, q, ie, "integer"); region_is(*f, hf, fs, fe, "fraction"); region_is(p, want, 0, hf ? fe : ie, "region");
	sx_cover(hi && hf ? "mixed" : hi ? "integer only" : hf ? "fraction only" : "no numeral");
}
struct ipart : part_<basic_integer<char>> {
	uint64_t v;
	ipart(const char* name, size_t N, size_t hi, const char* text, int fl, bool used) : part_(name, N, 1, hi, text, fl, used) { value = used ? 77 : 0; v = 1 + sx_choose(2, "value"); }
	virtual bool do_match(const char* tx, size_t start, size_t end, int flags) override { bool r = part_::do_match(tx, start, end, flags); value = r ? v : 0; return r; }
};
SX_CASE(monetary)
{
	signs g(4); ppart c = g.part_of("currency"), i = g.part_of("integer"), s = g.part_of("decimal separator"), d = g.part_of("decimal");
	basic_monetary_numeral<char> p(g.p[0], g.p[1], g.p[2], c, i, s, d); bool r = p.match(g.text, 0, g.N, g.fl);
	int w; size_t q = g.sign(w), ce = q, ie = q, se = q, de = q; bool hc = c->at(q) >= 0, hi = false, hd = false;
	if (hc) { ie = ce = q + c->at(q); hi = i->at(ce) >= 0; if (hi) ie = ce + i->at(ce); if (s->at(ie) >= 0) { se = ie + s->at(ie); if (d->at(se) >= 0) hd = true, de = se + d->at(se); } }
	bool want = hi || hd; sx_check(r == want, "monetary numeral"); g.check_signs(want ? w : -1, q); region_is(*c, want, q, ce, "currency"); region_is(*i, want && hi, ce, ie, "integer"); region_is(*s, hd, ie, se, "separator"); region_is(*d, hd, se, de, "decimal"); region_is(p, want, 0, hd ? de : ie, "region");
	sx_cover(want ? "amount" : "no amount");
}
SX_CASE(scientific)
{
	signs g(sx_bound(4, 5), false); { unsigned kind = sx_choose(3, "sign kind"); for (unsigned k = 0; k < 3; ++k) if (k != kind) g.p[k] = nullptr; }
	auto i = std::make_shared<ipart>("integer", g.N, 1, g.text, g.fl, g.used), d = std::make_shared<ipart>("decimal", g.N, 2, g.text, g.fl, g.used), e = std::make_shared<ipart>("exponent", g.N, 1, g.text, g.fl, g.used);
	ppart s = g.part_of("decimal separator"), y = g.part_of("exponent symbol"), ep = g.part_of("positive exponent"), en = g.part_of("negative exponent");
	if (!sx_choose(2, "exponents")) y = nullptr;
	basic_scientific_numeral<char> p(g.p[0], g.p[1], g.p[2], i, s, d, y, ep, en, e); if (g.used) p.value = 5;
	bool r = p.match(g.text, 0, g.N, g.fl);
	int w; size_t q = g.sign(w), ie = q, se = q, de = q, pos; bool hi = i->at(q) >= 0, hd = false, he = false; int es = -1; size_t ye = 0, ese = 0, ee = 0;
	if (hi) ie = q + i->at(q); if (s->at(ie) >= 0) { se = ie + s->at(ie); if (d->at(se) >= 0) hd = true, de = se + d->at(se); }
	pos = hd ? de : ie; bool want = hi || hd;
	if (want && y && y->at(pos) >= 0) {
		ye = pos + y->at(pos);
		for (int k = 0; k < 3 && !he; ++k) { // +, none, -
			ppart x = k == 0 ? ep : k == 2 ? en : nullptr; if (k != 1 && x->at(ye) < 0) continue;
			ese = k == 1 ? ye : ye + x->at(ye); if (e->at(ese) >= 0) he = true, es = k, ee = ese + e->at(ese);
		}
	}
	sx_check(r == want, "numeral"); g.check_signs(want ? w : -1, q); region_is(*i, want && hi, q, ie, "integer"); region_is(*s, want && hd, ie, se, "separator"); region_is(*d, want && hd, se, de, "decimal");
	if (y) region_is(*y, he, pos, ye, "exponent symbol"); region_is(*e, he, ese, ee, "exponent"); region_is(p, want, 0, he ? ee : pos, "region");
	if (!(he && es == 1)) region_is(*ep, he && es == 0, ye, ese, "positive exponent sign"); if (!(he && es == 1)) region_is(*en, he && es == 2, ye, ese, "negative exponent sign");
	if (want) {
		double v = hi ? (double)i->v : 0; if (hd) v += (double)d->v * pow(10.0, -(double)(de - se)); if (w == 1) v = -v; if (he) v *= pow(10.0, es == 2 ? -(double)e->v : (double)e->v);
		sx_check(p.value == v, "value"); sx_cover(he ? "with exponent" : "without exponent");
	} else { sx_check(p.value != p.value, "no value is left"); sx_cover("no numeral"); }
}
