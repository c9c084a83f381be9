// @bounds dates: every text of up to 8 (thorough 9) units, each a number, one of two separators, a space or something else, with an arbitrary 64-bit value of every number, every set of enabled formats; times and angles: every text of up to 7 (thorough 9) such units, optional components present or not
// @outside numbers longer than one unit (the digits are property X02)
// @assume components needed by an enabled format are given
#include "parse.h"
enum { NUM = 1, DOT, DASH, SPACE, OTHER };
static char* T; static size_t N; static int FL; static uint64_t V[16];
// A number: one unit of the kind NUM with an arbitrary value.
template <class B> struct num : B {
	bool is(bool have, size_t at) const { return have ? this->interval.start == at && this->interval.end == at + 1 && this->value == V[at] : !this->interval; }
	virtual void invalidate() override { this->value = 0; basic_parser<char>::invalidate(); }
protected:
	virtual bool do_match(const char* t, size_t s = 0, size_t e = SIZE_MAX, int fl = match_default) override
	{
		sx_check(t == T && e == N && fl == FL && s <= N, "part asked about the same text");
		if (s < e && t[s] == NUM) { this->value = V[s]; this->interval.start = s; this->interval.end = s + 1; return true; }
		this->value = 0; this->interval.invalidate(); return false;
	}
};
static std::shared_ptr<basic_parser<char>> unit(char c) { return std::make_shared<basic_cu<char>>(c); }
struct space_t : basic_cu<char> {
	space_t() : basic_cu<char>(SPACE) {}
protected:
	virtual bool do_match(const char* t, size_t s = 0, size_t e = SIZE_MAX, int fl = match_default) override
	{ sx_check(!(fl & match_multiline), "space within one line"); return basic_cu<char>::do_match(t, s, e, fl); }
};
struct set_t : basic_set<char> {
protected:
	virtual bool do_match(const char* t, size_t s = 0, size_t e = SIZE_MAX, int fl = match_default) override
	{
		sx_check(t == T && e == N && fl == FL && s <= N, "part asked about the same text");
		if (s < e && (t[s] == DOT || t[s] == DASH)) { hit_offset = t[s] - DOT; interval.start = s; interval.end = s + 1; return true; }
		hit_offset = SIZE_MAX; interval.invalidate(); return false;
	}
};
typedef num<basic_integer<char>> dnum;
struct int10 : basic_integer10<char> { int10() : basic_integer10<char>(nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr) {} };
typedef num<int10> tnum;
static void units(size_t max)
{
	N = sx_choose((uint32_t)max + 1, "length"); T = new char[N]; for (size_t i = 0; i < N; ++i) T[i] = (char)sx_range(NUM, OTHER, "unit"), V[i] = sx_u64("value");
	FL = sx_choose(2, "flags") ? match_multiline | match_case_insensitive : match_default;
}
static const char* const formats[] = { "dmy", "mdy", "ymd", "ym", "my", "dm", "md" };
static void run_date(bool single)
{
	units(single ? sx_bound(9, 11) : sx_bound(7, 8)); size_t start = N && sx_choose(2, "start"); int mask = single ? 1 << sx_choose(7, "format") : (int)sx_range(0, 127, "formats");
	auto day = std::make_shared<dnum>(), month = std::make_shared<dnum>(), year = std::make_shared<dnum>();
	basic_date<char> p(mask, day, month, year, std::make_shared<set_t>(), std::make_shared<space_t>());
	if (!single && sx_choose(2, "used")) { p.format = date_format_dm; for (auto& x : { day, month, year }) x->interval.start = 0, x->interval.end = 1, x->value = 1; p.interval.start = 0; p.interval.end = N; }
	bool r = p.match(T, start, N, FL), found = false;
	for (int f = 0; f < 7 && !found; ++f) {
		if (!(mask >> f & 1)) continue;
		size_t at[3] = { NONE, NONE, NONE }, pos = start, fin = 0; const char* q = formats[f]; int sep = -1; bool ok = true;
		auto spaces = [&] { while (pos < N && T[pos] == SPACE) ++pos; };
		for (int i = 0; q[i]; ++i) {
			if (i) { spaces(); if (!(pos < N && (T[pos] == DOT || T[pos] == DASH) && (sep < 0 || T[pos] == sep))) { ok = false; break; } sep = T[pos++]; spaces(); }
			if (!(pos < N && T[pos] == NUM)) { ok = false; break; }
			at[q[i] == 'd' ? 0 : q[i] == 'm' ? 1 : 2] = pos++; fin = pos;
		}
		if (!ok) continue;
		uint64_t m = V[at[1]]; bool valid = (m >= 1) & (m <= 12);
		if (at[0] != NONE) { uint64_t d = V[at[0]], last = 31 - ((m == 4) | (m == 6) | (m == 9) | (m == 11)) - 2 * (m == 2); valid = valid & (d >= 1) & (d <= last); }
		if (!valid) continue;
		if (at[2] == NONE) { spaces(); if (pos < N && T[pos] == sep) fin = pos + 1; } // "24. 12." ends with the separator
		found = true;
		sx_check(r, "a valid date is matched"); if (!r) return;
		sx_check(p.format == 1 << f, "first enabled format that matches"); sx_check(p.interval.start == start && p.interval.end == fin, "region");
		sx_check(day->is(at[0] != NONE, at[0]), "day"); sx_check(month->is(true, at[1]), "month"); sx_check(year->is(at[2] != NONE, at[2]), "year");
		sx_cover(formats[f]);
	}
	if (!found) { sx_check(!r, "no valid date"); sx_check(!p.interval && p.format == date_format_none && !day->interval && !month->interval && !year->interval, "nothing reported"); sx_cover("no date"); }
}
SX_CASE(date_formats) { run_date(false); }
SX_CASE(date_single) { run_date(true); }
// dates without a part that no enabled format needs
SX_CASE(date_parts)
{
	T = new char[3]; N = 3; T[0] = NUM; T[1] = DOT; T[2] = (char)sx_range(NUM, OTHER, "unit"); V[0] = sx_u64("value"); V[2] = sx_u64("value"); FL = 0;
	bool dm = sx_choose(2, "parts"); auto a = std::make_shared<dnum>(), month = std::make_shared<dnum>();
	basic_date<char> p(dm ? date_format_dm : date_format_my, dm ? a : nullptr, month, dm ? nullptr : a, std::make_shared<set_t>(), std::make_shared<space_t>());
	bool r = p.match(T, 0, N, FL); p.invalidate(); sx_check(!p.interval && !a->interval && !month->interval, "invalidated");
	if (r) { r = p.match(T, 1, N, FL); sx_check(!r && !p.interval && p.format == date_format_none && !a->interval && !month->interval, "no date there"); sx_cover("date"); }
}
SX_CASE(times)
{
	units(sx_bound(8, 11)); size_t start = N && sx_choose(2, "start"); bool hs = sx_choose(2, "seconds"), hm = sx_choose(2, "milliseconds"), hd = sx_choose(2, "milliseconds separator");
	auto hour = std::make_shared<tnum>(), minute = std::make_shared<tnum>(), second = hs ? std::make_shared<tnum>() : nullptr, ms = hm ? std::make_shared<tnum>() : nullptr;
	basic_time<char> p(hour, minute, second, ms, std::make_shared<set_t>(), hd ? unit(OTHER) : nullptr);
	if (sx_choose(2, "used")) { for (auto& x : { hour, minute, second, ms }) if (x) x->interval.start = 0, x->interval.end = 1, x->value = 1; p.interval.start = 0; p.interval.end = N; }
	bool r = p.match(T, start, N, FL);
	auto n = [&](size_t q) { return q < N && T[q] == NUM; };
	auto sep = [&](size_t q) { return q < N && (T[q] == DOT || T[q] == DASH); };
	bool ok = n(start) && sep(start + 1) && n(start + 2) && V[start + 2] < 60;
	sx_check(r == ok, "hours and minutes");
	if (ok) {
		bool s = hs && sep(start + 3) && T[start + 3] == T[start + 1] && n(start + 4) && V[start + 4] < 60;
		bool m = s && hm && hd && start + 5 < N && T[start + 5] == OTHER && n(start + 6) && V[start + 6] < 1000;
		sx_check(at(p, start, start + (m ? 7 : s ? 5 : 3)), "region"); sx_check(hour->is(true, start), "hour"); sx_check(minute->is(true, start + 2), "minute");
		if (hs) sx_check(second->is(s, start + 4), "second");
		if (hm) sx_check(ms->is(m, start + 6), "millisecond");
		sx_cover(m ? "milliseconds" : s ? "seconds" : "minutes");
	} else { sx_check(!p.interval && !hour->interval && !minute->interval && !(second && second->interval) && !(ms && ms->interval), "nothing reported"); sx_cover("no time"); }
	p.invalidate(); sx_check(!p.interval && !hour->interval && !minute->interval && !(second && second->interval) && !(ms && ms->interval), "invalidated");
}
// DOT: degrees, DASH: minutes, SPACE: seconds, OTHER: decimals
SX_CASE(angles)
{
	units(sx_bound(8, 11)); FL = 0; size_t start = N && sx_choose(2, "start"); bool hs = sx_choose(2, "seconds"), hss = sx_choose(2, "seconds separator"), hd = sx_choose(2, "decimals");
	auto deg = std::make_shared<tnum>(), minute = std::make_shared<tnum>(), second = hs ? std::make_shared<tnum>() : nullptr;
	auto sd = unit(DOT), sm = unit(DASH), ss = hss ? unit(SPACE) : nullptr, dec = hd ? unit(OTHER) : nullptr;
	basic_angle<char> p(deg, sd, minute, sm, second, ss, dec);
	if (sx_choose(2, "used")) { for (auto& x : { deg, minute, second }) if (x) x->interval.start = 0, x->interval.end = 1, x->value = 1; for (auto& x : { sd, sm, ss, dec }) if (x) x->interval.start = 0, x->interval.end = 1; }
	bool r = p.match(T, start, N, FL);
	auto n = [&](size_t q) { return q < N && T[q] == NUM; };
	auto is = [&](size_t q, char c) { return q < N && T[q] == c; };
	size_t q = start, qd = 0, qm = 0, qs = 0; bool d = n(q) && is(q + 1, DOT), m, s, x = false, z;
	if (d) qd = q, q += 2;
	m = n(q) && V[q] < 60 && is(q + 1, DASH); if (m) qm = q, q += 2;
	s = hs && n(q) && V[q] < 60; if (s) { qs = q++; x = hss && is(q, SPACE); if (x) ++q; }
	bool ok = d || m || s; z = ok && hd && is(q, OTHER); if (z) ++q;
	sx_check(r == ok, "some component"); sx_check(ok ? at(p, start, q) : !p.interval, "region");
	sx_check(deg->is(d, qd) && (d ? at(*sd, qd + 1, qd + 2) : !sd->interval), "degrees"); sx_check(minute->is(m, qm) && (m ? at(*sm, qm + 1, qm + 2) : !sm->interval), "minutes");
	if (hs) sx_check(second->is(s, qs), "seconds");
	if (hss) sx_check(x ? at(*ss, qs + 1, qs + 2) : !ss->interval, "seconds separator");
	if (hd) sx_check(z ? at(*dec, q - 1, q) : !dec->interval, "decimals");
	sx_cover(ok ? "angle" : "no angle");
	p.invalidate(); sx_check(!p.interval && !deg->interval && !minute->interval && !(second && second->interval) && !sd->interval && !sm->interval && !(ss && ss->interval) && !(dec && dec->interval), "invalidated");
}
