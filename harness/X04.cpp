// @bounds IBAN: every two letters as the country, arbitrary check digits, a body of the legal length of every country with arbitrary digits at two places (the second one of the limits of the digit and letter ranges, thorough any letter or digit), a space at every place, the text cut at every place; the longest one in letters; creditor reference: every body length 0..22, in letters and digits, arbitrary check digits and a further arbitrary place, spaces between groups of four, cut at every place; Slovenian reference: every model, 1..3 parts of up to 3 (thorough 4) arbitrary digits, and parts of every length around the limits 12, 13 and 20
// @outside all body places arbitrary at the same time
// @assume the space parser matches at least one unit
#include "parse.h"
static std::shared_ptr<basic_parser<char>> ch(char c) { return std::make_shared<basic_cu<char>>(c); }
static const char table[] = "AD24AE23AL28AO25AT20AZ28BA20BE16BF28BG22BH22BI27BJ28BR29BY28CF27CG27CH21CI28CM27CR22CV25CY28CZ24DE22DJ27DK18DO28DZ26EE20EG29ES24FI18FO18FR27GA27GB22GE22GI23GL18GQ27GR27GT28GW25HN28HR21HU28IE22IL23IQ23IR26IS26IT27JO30KM27KW30KZ20LB28LC32LI21LT20LU20LV21LY25MA28MC27MD24ME22MG27MK19ML28MR27MT31MU30MZ25NE28NI32NL18NO15PK24PL28PS29PT25QA29RO24RS22RU33SA24SC31SD18SE24SI19SK24SM27SN28ST25SV28TD27TG28TL23TN24TR26UA29VA22VG24XK20";
static const char fixedcd[] = "BA39ME25MK07MR13PT50RS35SI56TL38TN59";
// the remainder of the number written in a..., letters standing for 10..35
struct mod97 {
	uint64_t r = 0; bool first = true;
	void digit(uint64_t d) { r = (r * 10 + d) % 97; }
	void unit(char c) { if (c >= '0' && c <= '9') digit(c - '0'); else { unsigned v = c - 'A' + 10; digit(v / 10); digit(v % 10); } }
};
static const char units[] = "09AJKTUZ12345678BCDEFGHILMNOPQRSVWXY";
// which country codes exist, how long their numbers are and which check digits they insist on
SX_CASE(iban_country)
{
	basic_iban<char> p(nullptr); char b[41]; size_t start = sx_choose(2, "start"); size_t n = 0; if (start) b[n++] = 'S';
	char c0 = (char)sx_u8("country"), c1 = (char)sx_u8("country"); bool ci = sx_choose(2, "ci"); b[n++] = c0; b[n++] = c1;
	char d0 = (char)('0' + sx_range(0, 9, "check")), d1 = (char)('0' + sx_range(0, 9, "check")); b[n++] = d0; b[n++] = d1;
	while (n < start + 38) b[n++] = '7';
	char* s = new char[n]; memcpy(s, b, n);
	bool r = p.match(s, start, n, ci ? match_case_insensitive : 0);
	uint64_t len = 0; char u0 = c0, u1 = c1;
	if (ci) { u0 = (char)(u0 - 32 * ((u0 >= 'a') & (u0 <= 'z'))); u1 = (char)(u1 - 32 * ((u1 >= 'a') & (u1 <= 'z'))); }
	for (const char* q = table; *q; q += 4) len |= ((u0 == q[0]) & (u1 == q[1])) * uint64_t((q[2] - '0') * 10 + q[3] - '0');
	bool bad = false;
	for (const char* q = fixedcd; *q; q += 4) bad = bad | ((u0 == q[0]) & (u1 == q[1]) & ((d0 != q[2]) | (d1 != q[3])));
	sx_check(r == ((len != 0) & !bad), "known country with its check digits");
	if (r) {
		sx_check(p.interval.start == start && p.interval.end == start + len, "as long as the numbers of the country");
		sx_check(p.country[0] == u0 && p.country[1] == u1 && p.country[2] == 0 && p.check_digits[0] == d0 && p.check_digits[1] == d1 && p.check_digits[2] == 0, "country and check digits");
		sx_check(strlen(p.bban) == len - 4, "length of the body"); sx_cover("iban");
	} else { sx_check(!p.interval && !p.country[0] && !p.check_digits[0] && !p.bban[0] && !p.is_valid, "nothing reported"); sx_cover("no iban"); }
	delete[] s;
}
static void run_iban(const char* cc, size_t len, bool letters, unsigned fam)
{
	basic_iban<char> p(ch(' '));
	if (sx_choose(2, "used")) sx_check(p.match("SI56023300200029283", 0) && p.bban[0] == '0', "earlier match");
	char body[40]; size_t nb = len - 4;
	for (size_t i = 0; i < nb; ++i) body[i] = letters ? char('A' + (i * 7 + 25) % 26) : char('0' + (i * 7 + 1) % 10);
	size_t a = sx_choose(3, "place") * (nb - 1) / 2;
	body[a] = char('0' + sx_range(0, 9, "digit"));
	if (fam == 1) { size_t k = (a + 5) % nb; body[k] = units[sx_choose(sx_bound(8, 10), "unit")]; }
	char c0 = fam == 1 ? '4' : (char)('0' + sx_range(0, 9, "check")), c1 = (char)('0' + sx_range(0, 9, "check"));
	if (!strcmp(cc, "SI")) c0 = '5', c1 = '6';
	bool ci = fam == 0 && sx_choose(2, "ci");
	char b[60]; size_t n = 0; b[n++] = ci ? lc(cc[0]) : cc[0]; b[n++] = cc[1]; b[n++] = c0; b[n++] = c1;
	size_t space = fam == 0 ? sx_choose(nb + 1, "space") : nb, fin = 0;
	for (size_t i = 0; i < nb; ++i) { if (i == space) b[n++] = ' '; b[n++] = ci && letters && i != a ? lc(body[i]) : body[i]; }
	fin = n; if (sx_choose(2, "more")) b[n++] = '8';
	size_t cut = fam == 2 ? sx_choose(n + 1, "cut") : n; bool z = fam == 2 && sx_choose(2, "terminator");
	char* s = new char[cut + z]; memcpy(s, b, cut); if (z) s[cut] = 0;
	bool r = p.match(s, 0, z ? SIZE_MAX : cut, ci ? match_case_insensitive : 0);
	sx_check(r == (cut >= fin), "complete");
	if (r) {
		sx_check(at(p, 0, fin), "region"); sx_check(!memcmp(p.country, cc, 3) && p.check_digits[0] == c0 && p.check_digits[1] == c1 && !p.check_digits[2], "country and check digits");
		for (size_t i = 0; i < nb; ++i) sx_check(p.bban[i] == body[i], "body without spaces");
		sx_check(!p.bban[nb], "end of the body");
		mod97 m; for (size_t i = 0; i < nb; ++i) m.unit(body[i]);
		m.unit(cc[0]); m.unit(cc[1]); m.unit(c0); m.unit(c1);
		sx_check(p.is_valid == (m.r == 1), "valid exactly with remainder 1"); if (p.is_valid) sx_cover("valid"); else sx_cover("invalid");
	} else { sx_check(!p.interval && !p.country[0] && !p.check_digits[0] && !p.bban[0] && !p.is_valid, "nothing reported"); sx_cover("cut"); }
	delete[] s;
}
SX_CASE(iban_space) { if (sx_choose(2, "country")) run_iban("NO", 15, false, 0); else run_iban("GB", 22, true, 0); }
SX_CASE(iban_valid) { switch (sx_choose(4, "country")) { case 0: run_iban("NO", 15, false, 1); break; case 1: run_iban("SI", 19, false, 1); break; case 2: run_iban("RU", 33, true, 1); break; default: run_iban("MT", 31, true, 1); } }
SX_CASE(iban_cut) { if (sx_choose(2, "country")) run_iban("NO", 15, false, 2); else run_iban("NI", 32, true, 2); }
// a unit that is neither digit nor capital letter nor space
SX_CASE(iban_unit)
{
	basic_iban<char> p(ch(' ')); char* s = new char[15]; memcpy(s, "NO9386011117947", 15); size_t k = sx_choose(15, "place"); char c = s[k] = (char)sx_u8("unit");
	bool digit = (c >= '0') & (c <= '9'), upper = (c >= 'A') & (c <= 'Z');
	bool r = p.match(s, 0, 15);
	if (k >= 4) sx_check(r == (digit | upper), "letters and digits only");
	else if (k >= 2) sx_check(r == digit, "check digits are digits");
	if (r && k >= 4) { sx_check(p.bban[k - 4] == c, "body"); sx_cover("unit"); }
	delete[] s;
}
static void creditor(size_t nb, bool letters, unsigned fam)
{
	basic_creditor_reference<char> p(ch(' '));
	if (sx_choose(2, "used")) sx_check(p.match("RF18539007547034", 0), "earlier match");
	char body[24], c0 = fam == 1 ? '4' : (char)('0' + sx_range(0, 9, "check")), c1 = (char)('0' + sx_range(0, 9, "check"));
	for (size_t i = 0; i < nb; ++i) body[i] = letters ? char('A' + (i * 7 + 25) % 26) : char('0' + (i * 7 + 1) % 10);
	if (nb) body[nb / 2] = char('0' + sx_range(0, 9, "digit"));
	if (nb > 1 && fam == 1) { size_t k = sx_choose(2, "place") * (nb - 1); body[k] = units[sx_choose(sx_bound(8, 10), "unit")]; }
	bool ci = sx_choose(2, "ci");
	char b[60]; size_t n = 0; b[n++] = ci ? 'r' : 'R'; b[n++] = 'F'; b[n++] = c0; b[n++] = c1;
	// spaces between groups of four, wanted by the mask (bit 0: before the first)
	unsigned spaces = fam == 0 ? sx_choose(8, "spaces") : 0; size_t fin = n, used = 0; bool stop = false;
	for (size_t i = 0; i < nb; ++i) {
		if (i % 4 == 0 && (spaces >> (i / 4 % 3) & 1)) b[n++] = ' ';
		b[n++] = body[i]; fin = n; ++used;
	}
	(void)stop;
	size_t all = n;
	switch (fam == 0 ? sx_choose(4, "after") : 0) { case 1: b[n++] = ' '; break; case 2: b[n++] = '-'; break; case 3: b[n++] = ' '; b[n++] = ' '; break; }
	(void)all;
	size_t cut = fam == 2 ? sx_choose(n + 1, "cut") : n; bool z = sx_choose(2, "terminator");
	char* s = new char[cut + z]; memcpy(s, b, cut); if (z) s[cut] = 0;
	if (cut < n) { fin = cut; used = cut > 4 ? cut - 4 : 0; }
	bool r = p.match(s, 0, z ? SIZE_MAX : cut, ci ? match_case_insensitive : 0);
	sx_check(r == (used >= 1 && used <= 21), "complete");
	if (r) {
		sx_check(at(p, 0, fin), "region ends with the last unit"); sx_check(p.check_digits[0] == c0 && p.check_digits[1] == c1 && !p.check_digits[2], "check digits");
		for (size_t i = 0; i < 21; ++i) sx_check(p.reference[i] == (i < 21 - used ? '0' : body[i - (21 - used)]), "body filled with zeros on the left");
		sx_check(!p.reference[21], "end of the body");
		mod97 m; for (size_t i = 0; i < used; ++i) m.unit(body[i]);
		m.unit('R'); m.unit('F'); m.unit(c0); m.unit(c1);
		sx_check(p.is_valid == (m.r == 1), "valid exactly with remainder 1"); if (p.is_valid) sx_cover("valid"); else sx_cover("invalid");
	} else { sx_check(!p.interval && !p.check_digits[0] && !p.reference[0] && !p.is_valid, "nothing reported"); sx_cover("no reference"); }
	delete[] s;
}
SX_CASE(creditor_length) { creditor(sx_choose(23, "length"), sx_choose(2, "letters"), 0); }
SX_CASE(creditor_valid) { static const size_t l[] = { 1, 4, 11, 21 }; creditor(l[sx_choose(4, "length")], sx_choose(2, "letters"), 1); }
SX_CASE(creditor_cut) { creditor(sx_choose(2, "length") * 15 + 6, sx_choose(2, "letters"), 2); }
SX_CASE(creditor_unit)
{
	basic_creditor_reference<char> p(ch(' ')); char* s = new char[12]; memcpy(s, "RF18ABCD1234", 12); size_t k = sx_choose(12, "place"); char c = s[k] = (char)sx_u8("unit");
	bool digit = (c >= '0') & (c <= '9'), upper = (c >= 'A') & (c <= 'Z');
	bool r = p.match(s, 0, 12);
	if (k == 0) sx_check(r == (c == 'R'), "reference of a creditor");
	else if (k == 1) sx_check(r == (c == 'F'), "reference of a creditor");
	else if (k < 4) sx_check(r == digit, "check digits are digits");
	else if (k == 4) sx_check(r == (digit | upper | (c == ' ')), "body");
	else { sx_check(r, "body"); sx_check((p.interval.end == 12) == (digit | upper | (c == ' ' && k == 8)), "up to the first other unit"); if (!(digit | upper)) sx_check(p.interval.end == k || c == ' ', "up to the first other unit"); }
	delete[] s;
}
// Slovenian references: model, least and most parts, digits of which parts (bit mask) end in a check digit, together
struct model { const char* m; unsigned lo, hi; unsigned groups[3]; };
static const model models[] = {
	{ "00", 1, 3, {} }, { "01", 1, 3, { 7 } }, { "02", 3, 3, { 2, 4 } }, { "03", 3, 3, { 1, 2, 4 } }, { "04", 3, 3, { 1, 4 } }, { "05", 1, 3, { 1 } }, { "55", 1, 3, { 1 } },
	{ "06", 2, 3, { 6 } }, { "07", 2, 3, { 2 } }, { "08", 3, 3, { 3, 4 } }, { "09", 1, 3, { 3 } }, { "10", 2, 3, { 1, 6 } },
	{ "11", 2, 3, { 1, 2 } }, { "18", 2, 3, { 1, 2 } }, { "19", 2, 3, { 1, 2 } }, { "28", 2, 3, { 1, 2 } }, { "38", 2, 3, { 1, 2 } }, { "40", 2, 3, { 1, 2 } }, { "41", 2, 3, { 1, 2 } },
	{ "48", 2, 3, { 1, 2 } }, { "49", 2, 3, { 1, 2 } }, { "51", 2, 3, { 1, 2 } }, { "58", 2, 3, { 1, 2 } }, { "12", 1, 1, { 1 } }, { "21", 2, 2, { 1 } }, { "31", 2, 2, { 1 } },
};
static void si(const model* m, const char* mt, unsigned parts, const size_t* len, const char (*d)[24], bool sp, unsigned after, bool cutoff)
{
	basic_si_reference<char> p(ch(' '));
	if (sx_choose(2, "used")) sx_check(p.match("SI00 1-2-3", 0) && p.is_valid, "earlier match");
	char b[100]; size_t n = 0; b[n++] = 'S'; b[n++] = 'I'; b[n++] = mt[0]; b[n++] = mt[1]; if (sp) b[n++] = ' ';
	size_t s0[3], e0[3];
	for (unsigned i = 0; i < parts; ++i) { if (i) b[n++] = '-'; s0[i] = n; for (size_t k = 0; k < len[i]; ++k) b[n++] = d[i][k]; e0[i] = n; }
	size_t fin = parts ? n : 4; if (after == 1) b[n++] = '-'; else if (after == 2) { b[n++] = '-'; b[n++] = 'x'; } else if (after == 3 && parts == 3) { b[n++] = '-'; b[n++] = '1'; }
	char* s = new char[n + !cutoff]; memcpy(s, b, n); if (!cutoff) s[n] = 0;
	bool r = p.match(s, 0, cutoff ? n : SIZE_MAX);
	sx_check(r, "a model is a reference");
	bool all = mt[0] == '9' && mt[1] == '9';
	sx_check(at(p, 0, all ? 4 : fin), "region ends with the last part"); sx_check(p.model[0] == mt[0] && p.model[1] == mt[1] && !p.model[2], "model");
	basic_si_reference_part<char>* pp[3] = { &p.part1, &p.part2, &p.part3 };
	for (unsigned i = 0; i < 3; ++i) { if (i < parts && !all) sx_check(at(*pp[i], s0[i], e0[i]), "region of a part"); else sx_check(!pp[i]->interval, "no such part"); }
	bool valid = true;
	if (m) {
		valid = parts >= m->lo && parts <= m->hi; size_t total = 0;
		bool single = m->hi == 1;
		for (unsigned i = 0; i < parts; ++i) { total += len[i]; if (len[i] > (single ? 13 : 12)) valid = false; }
		if (parts > 1 && total > 20) valid = false;
		if (valid) for (unsigned g : m->groups) if (g) {
			if (!(g & ((1u << parts) - 1))) continue;
			uint64_t sum = 0, w = 1, control = 0;
			for (unsigned i = parts; i--;) if (g >> i & 1) for (size_t k = len[i]; k--; ++w) { if (w == 1) control = d[i][k] - '0'; else sum += w * uint64_t(d[i][k] - '0'); }
			uint64_t rest = sum % 11, want = (11 - rest) * (rest >= 2);
			valid = valid & (control == want);
		}
	}
	sx_check(p.is_valid == valid, "valid exactly with the right check digits and lengths");
	if (p.is_valid) sx_cover("valid"); else sx_cover("invalid");
	delete[] s;
}
SX_CASE(si_digits)
{
	unsigned mi = sx_choose(sizeof(models) / sizeof(*models), "model"); unsigned parts = sx_choose(4, "parts"); char d[3][24]; size_t len[3] = { 1, 1, 1 };
	unsigned big = parts ? sx_choose(parts, "longer part") : 0; if (parts) len[big] = 1 + sx_choose(sx_bound(3, 4), "length");
	if (parts) len[(big + 1) % 3] = 2;
	for (auto& x : d) for (size_t k = 0; k < 4; ++k) x[k] = char('0' + sx_range(0, 9, "digit"));
	si(&models[mi], models[mi].m, parts, len, d, true, 0, true);
}
SX_CASE(si_length)
{
	static const unsigned mm[] = { 0, 1, 2, 7, 9, 12, 23, 24 }; unsigned mi = mm[sx_choose(8, "model")]; unsigned parts = sx_choose(4, "parts"); char d[3][24]; size_t len[3] = { 1, 1, 1 };
	static const size_t l1[] = { 1, 11, 12, 13, 14 }, l2[] = { 1, 8, 9, 12, 13 }; len[0] = l1[sx_choose(5, "length")]; len[1] = parts > 1 ? l2[sx_choose(5, "length")] : 1; len[2] = parts > 2 ? l2[sx_choose(5, "length")] : 1;
	unsigned v = sx_choose(2, "digits");
	for (unsigned i = 0; i < 3; ++i) for (size_t k = 0; k < 24; ++k) d[i][k] = v ? '0' : char('0' + (k * 3 + i + 1) % 10);
	if (!v) d[parts ? parts - 1 : 0][len[parts ? parts - 1 : 0] - 1] = char('0' + sx_range(0, 9, "digit"));
	si(&models[mi], models[mi].m, parts, len, d, sx_choose(2, "space"), sx_choose(4, "after"), sx_choose(2, "cutoff"));
}
SX_CASE(si_model)
{
	char m[2]; m[0] = (char)sx_u8("model"); m[1] = (char)sx_u8("model");
	bool known = false; const model* k = nullptr;
	basic_si_reference<char> p(nullptr); char* s = new char[9]; memcpy(s, "SI..12-34", 9); s[2] = m[0]; s[3] = m[1];
	bool dig = (m[0] >= '0') & (m[0] <= '9') & (m[1] >= '0') & (m[1] <= '9');
	bool r = p.match(s, 0, 9); sx_check(r == dig, "two digits");
	for (auto& x : models) if (m[0] == x.m[0] && m[1] == x.m[1]) known = true, k = &x;
	if (r && !known) { sx_check(p.is_valid, "unknown models are not judged"); sx_cover("unknown model"); }
	if (r) { bool all = (m[0] == '9') & (m[1] == '9'); sx_check(p.interval.end == (all ? 4 : 9), "region"); }
	if (!r) sx_check(!p.interval && !p.model[0] && !p.is_valid && !p.part1.interval, "nothing reported");
	(void)k; delete[] s;
	// letters and cuts
	size_t cut = sx_choose(5, "cut"); char a = (char)sx_u8("letter"), c = (char)sx_u8("letter"); char* q = new char[cut]; const char t[4] = { a, c, '0', '5' }; memcpy(q, t, cut);
	bool ci = sx_choose(2, "ci"); r = p.match(q, 0, cut, ci ? match_case_insensitive : 0);
	sx_check(r == (cut == 4 && ((a == 'S') | (ci & (a == 's'))) & ((c == 'I') | (ci & (c == 'i')))), "starts with SI");
	delete[] q;
}
