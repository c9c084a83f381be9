// @bounds every day from 1 Mar 0000 (calendar: 1 Jan 0001) to the end of 2399 (thorough 9999): day and year of the century arbitrary, month and century chosen; every millisecond of a day; Unix times of 2^20 arbitrary consecutive seconds around the epoch, around 1 Jan 0001, in 2038 and at the end of 9999; the RFC 822 text of a few dates with every second of a day
// @outside years before 1 (the conversion is not defined for them), Windows time structures; the C library's strftime
// @stub strftime_l: %a %d %b %Y %H %M %S and literals, as in the C locale; returns 0 when the text does not fit
#include "common.h"
#include <ctime>
#include <stdex/chrono.hpp>
using namespace stdex::chrono;
typedef aosn_date D; typedef aosn_timestamp S;
static const char* const wd_[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
static const char* const mn_[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
extern "C" size_t strftime_l(char* s, size_t n, const char* f, const struct tm* t, locale_t) noexcept
{
	size_t k = 0; auto put = [&](int c) { if (k < n) s[k] = (char)c; ++k; };
	auto two = [&](int v) { put('0' + (unsigned)v / 10); put('0' + (unsigned)v % 10); };
	for (; *f; ++f) {
		if (*f != '%') { put(*f); continue; }
		switch (*++f) {
		case 'a': for (const char* p = wd_[t->tm_wday]; *p; ++p) put(*p); break;
		case 'b': for (const char* p = mn_[t->tm_mon]; *p; ++p) put(*p); break;
		case 'd': two(t->tm_mday); break;
		case 'H': two(t->tm_hour); break;
		case 'M': two(t->tm_min); break;
		case 'S': two(t->tm_sec); break;
		case 'Y': two((t->tm_year + 1900) / 100); two((t->tm_year + 1900) % 100); break;
		default: sx_fail("unknown conversion");
		}
	}
	if (k < n) { s[k] = 0; return k; }
	return 0;
}
static unsigned centuries() { return sx_bound(24, 100); }
struct date { uint8_t d, m; int32_t y, c, r; bool leap; uint32_t len; };
static date any()
{
	date x; x.c = sx_choose(centuries(), "century"); x.m = (uint8_t)(1 + sx_choose(12, "month"));
	x.r = (int32_t)sx_range(x.c ? 0 : 1, 99, "year"); x.d = (uint8_t)sx_range(1, 31, "day"); x.y = x.c * 100 + x.r;
	x.leap = ((x.r & 3) == 0) & ((x.r != 0) | (x.c % 4 == 0));
	static const uint8_t len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
	x.len = len[x.m - 1] + (x.m == 2 ? x.leap : 0);
	sx_assume(x.d <= x.len);
	return x;
}
SX_CASE(there_and_back)
{
	date x = any(); auto n = D::from_dmy(x.d, x.m, x.y);
	uint8_t d = 0, m = 0; int32_t y = 0; D::to_dmy(n, &d, &m, &y);
	sx_check((d == x.d) & (m == x.m) & (y == x.y), "same day"); sx_cover("converted");
}
SX_CASE(consecutive)
{
	date x = any(); bool eom = x.d == x.len, eoy = eom & (x.m == 12);
	// next day: two cases to keep month and century given
	int32_t n = D::from_dmy(x.d, x.m, x.y).time_since_epoch().count(), n1;
	if (!eom) n1 = D::from_dmy(x.d + 1, x.m, x.y).time_since_epoch().count();
	else if (!eoy) n1 = D::from_dmy(1, x.m + 1, x.y).time_since_epoch().count();
	else { n1 = D::from_dmy(1, 1, x.y + 1).time_since_epoch().count(); sx_cover("new year"); }
	sx_check(n1 == n + 1, "consecutive days");
	unsigned w = D::day_of_week(D::time_point(D::duration(n))), w1 = D::day_of_week(D::time_point(D::duration(n1)));
	sx_check(w < 7 && w1 == (w == 6 ? 0 : w + 1), "consecutive weekdays"); sx_cover("next");
}
SX_CASE(anchors)
{
	sx_check(D::from_dmy(1, 1, 1970).time_since_epoch().count() == 2440588, "Unix epoch");
	sx_check(D::day_of_week(1, 1, 1970) == 3 && D::day_of_week(29, 2, 2024) == 3 && D::day_of_week(1, 1, 1) == 0, "weekdays");
	sx_check(D::to_time_t(D::from_dmy(1, 1, 1970)) == 0 && S::to_time_t(S::from_dmy(1, 1, 1970, 0, 0, 1, 0)) == 1, "Unix time");
	D::to_dmy(D::from_dmy(1, 1, 1970), nullptr, nullptr, nullptr); S::to_dmy(S::from_dmy(1, 1, 1970, 0, 0, 0, 0), nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr);
	sx_cover("anchored");
}
// Both together with the anchors give the other direction: every number is that of a day.
static const int32_t days_[] = { 2440588, 2440587, 1721426, 2460370, 5373484 };
SX_CASE(time_of_day)
{
	int32_t n = days_[sx_choose(5, "date")]; auto day = D::time_point(D::duration(n));
	uint8_t d, m; int32_t y; D::to_dmy(day, &d, &m, &y);
	uint8_t h = (uint8_t)sx_range(0, 23, "hour"), mi = (uint8_t)sx_range(0, 59, "minute"), s = (uint8_t)sx_range(0, 59, "second"); uint16_t ms = (uint16_t)sx_range(0, 999, "ms");
	auto t = S::from_dmy(d, m, y, h, mi, s, ms);
	uint8_t d2 = 0, m2 = 0, h2 = 0, mi2 = 0, s2 = 0; int32_t y2 = 0; uint16_t ms2 = 0; S::to_dmy(t, &d2, &m2, &y2, &h2, &mi2, &s2, &ms2);
	sx_check((d2 == d) & (m2 == m) & (y2 == y), "same day"); sx_check(h2 == h, "hour"); sx_check(mi2 == mi, "minute"); sx_check(s2 == s, "second"); sx_check(ms2 == ms, "millisecond");
	sx_check(S::to_date(t) == day, "date of a timestamp");
	sx_check(S::from_dmy(d, m, y, 0, 0, 0, 0) == S::from_date(day), "midnight");
	struct tm tm; S::to_system(t, tm);
	sx_check(tm.tm_mday == d && tm.tm_mon == m - 1 && tm.tm_year == y - 1900 && tm.tm_wday == (int)((n + 1) % 7), "calendar date");
	sx_check((tm.tm_hour == h) & (tm.tm_min == mi) & (tm.tm_sec == s), "calendar time"); sx_cover("time");
}
static const int64_t times_[] = { 0, -86400, -62135596800, 2147483647 - (1 << 19), 253402300799 - (1 << 19), -(1 << 20) };
SX_CASE(unix_time)
{
	int64_t t = times_[sx_choose(6, "time")] + (int64_t)sx_range(0, (1 << 20) - 1, "offset");
	auto s = S::from_time_t(t);
	sx_check(s.time_since_epoch().count() == (t + 210866803200) * 1000, "timestamp of a Unix time");
	sx_check(S::to_time_t(s) == t, "same Unix time");
	sx_check(S::to_time_t(s + S::duration(sx_range(0, 999, "ms"))) == t, "milliseconds dropped"); sx_cover("unix");
}
SX_CASE(unix_date)
{
	int64_t t = times_[sx_choose(6, "time")] + (int64_t)sx_range(0, (1 << 20) - 1, "offset");
	auto n = D::from_time_t(t); int64_t b = D::to_time_t(n);
	sx_check(b == (int64_t)n.time_since_epoch().count() * 86400 - 210866803200, "Unix time of a date");
	sx_check((b <= t) & (t - b < 86400), "the day of a Unix time");
	sx_check(S::to_date(S::from_time_t(t)) == n, "timestamps agree with dates"); sx_cover("date");
}
SX_CASE(timespec_)
{
	struct timespec ts; ts.tv_sec = times_[sx_choose(6, "time")]; ts.tv_nsec = (long)sx_range(0, 999999999, "ns");
	auto t = S::from_system(ts); int64_t ms = t.time_since_epoch().count() - S::from_time_t(ts.tv_sec).time_since_epoch().count();
	sx_check((ms >= 0) & (ms <= 999), "milliseconds of a second");
	sx_check((ms * 1000000 <= ts.tv_nsec) & (ts.tv_nsec < (ms + 1) * 1000000), "milliseconds of a time");
	sx_check(D::from_system(ts) == D::from_time_t(ts.tv_sec), "date of a time"); sx_cover("timespec");
}
SX_CASE(rfc822)
{
	int32_t n = days_[sx_choose(5, "date")]; auto day = D::time_point(D::duration(n));
	uint8_t d, m; int32_t y; D::to_dmy(day, &d, &m, &y);
	uint8_t h = (uint8_t)sx_range(0, 23, "hour"), mi = (uint8_t)sx_range(0, 59, "minute"), s = (uint8_t)sx_range(0, 59, "second");
	std::string r = S::to_rfc822(S::from_dmy(d, m, y, h, mi, s, 999));
	std::string w = wd_[(n + 1) % 7]; w += ", "; w += char('0' + d / 10); w += char('0' + d % 10); w += ' '; w += mn_[m - 1]; w += ' ';
	for (int k = 1000; k; k /= 10) w += char('0' + y / k % 10);
	w += ' '; w += char('0' + h / 10); w += char('0' + h % 10); w += ':'; w += char('0' + mi / 10); w += char('0' + mi % 10); w += ':'; w += char('0' + s / 10); w += char('0' + s % 10); w += " GMT";
	sx_check(r.size() == w.size() && sx_memeq(r.data(), w.data(), r.size()), "RFC 822 date"); sx_cover("rfc822");
}
SX_CASE(long_text)
{
	static const unsigned len[] = { 1020, 1023, 1024, 1025, 2047, 2048, 2049, 5000 };
	std::string f(len[sx_choose(8, "length")] - 4, 'x'); f += "%Y";
	{
		std::string r = S::to_str(S::from_dmy(1, 2, 2024, 0, 0, 0, 0), f.c_str(), stdex::locale_C);
		sx_check(r.size() == f.size() + 2 && r.substr(r.size() - 4) == "2024", "long text"); sx_cover("long");
	}
}
