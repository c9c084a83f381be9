// @bounds texts of 0 to about 4100 (thorough: 8200) units around every buffer size involved (and, thorough, every length of 0 to 2100), the characters at both ends and around the boundaries arbitrary; 8-bit and wide; text in front of it of 0, 3 and 600 units; four stale errors of earlier calls; numbers of every value in every supported base, width and precision up to 5; times: expansions of 0 to 4100 units, every time of a day
// @outside conversions of floating-point numbers and positional arguments; texts beyond the bound
// @stub strftime_l, wcsftime_l: literals, %p (nothing, as in locales without it), %B (a text of any length), %H %M %S %d %j, %%; return 0 when the text and its terminator do not fit
// @assume the C library's formatted output follows the C standard (model of the conversions used in engine/rt.cpp)
#include "common.h"
#include <cerrno>
#include <ctime>
#include <stdexcept>
#include <stdex/string.hpp>
#include <stdex/chrono.hpp>
#include <stdex/stream.hpp>
using namespace stdex;
static size_t blen_; static const void* btext_;
template <class T> static size_t sft(T* s, size_t n, const T* f, const struct tm* t)
{
	size_t k = 0; auto put = [&](T c) { if (k < n) s[k] = c; ++k; };
	auto num = [&](int v, int d) { for (; d; d /= 10) put((T)('0' + v / d % 10)); };
	for (; *f; ++f) {
		if (*f != '%') { put(*f); continue; }
		switch (*++f) {
		case 'p': break;
		case 'B': for (size_t i = 0; i < blen_; ++i) put(static_cast<const T*>(btext_)[i]); break;
		case 'H': num(t->tm_hour, 10); break;
		case 'M': num(t->tm_min, 10); break;
		case 'S': num(t->tm_sec, 10); break;
		case 'd': num(t->tm_mday, 10); break;
		case 'j': num(t->tm_yday + 1, 100); break;
		case 'Z': if (t->tm_zone) for (const char* z = t->tm_zone; *z; ++z) put((T)*z); break;
		case '%': put('%'); break;
		default: sx_fail("unknown conversion");
		}
	}
	if (k < n) { s[k] = 0; return k; }
	return 0;
}
extern "C" size_t strftime_l(char* s, size_t n, const char* f, const struct tm* t, locale_t) noexcept { return sft(s, n, f, t); }
extern "C" size_t wcsftime_l(wchar_t* s, size_t n, const wchar_t* f, const struct tm* t, locale_t) noexcept { return sft(s, n, f, t); }
template <class T> static std::basic_string<T> lit(const char* s) { std::basic_string<T> r; while (*s) r += (T)*s++; return r; }
template <class T> struct F;
template <> struct F<char> { static const char* s() { return "%s"; } static const char* two() { return "<%s>"; } static const char* ls() { return "%ls"; } };
template <> struct F<wchar_t> { static const wchar_t* s() { return L"%ls"; } static const wchar_t* two() { return L"<%ls>"; } };
static const unsigned len_[] = { 0, 1, 2, 254, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 4100, 8191, 8192, 8200 };
static unsigned len() { return len_[sx_choose(sx_bound(22, 25), "length")]; }
template <class T> static std::basic_string<T> text(size_t n)
{
	std::basic_string<T> s(n, 'm');
	static const size_t at[] = { 0, 254, 255, 256, 511, 512, 1022, 1023, 1024, 2047, 2048, 4095, 4096 };
	auto any = [&](size_t i) { s[i] = (T)sx_range(1, sizeof(T) == 1 ? 127 : 0xd7ff, "character"); };
	for (size_t a : at) if (a < n) any(a);
	if (n) any(n - 1);
	return s;
}
template <class T> static bool eq(const std::basic_string<T>& a, const std::basic_string<T>& b) { return a.size() == b.size() && sx_memeq(a.data(), b.data(), a.size() * sizeof(T)); }
static void stale() { static const int e[] = { 0, EINVAL, EOVERFLOW, EILSEQ }; errno = e[sx_choose(4, "stale error")]; }
template <class T> static void appends(size_t n)
{
	std::basic_string<T> t = text<T>(n); static const unsigned pre[] = { 0, 3, 600 };
	std::basic_string<T> p(pre[sx_choose(3, "text in front")], 'p'), r = p; stale();
	size_t c = appendf(r, F<T>::s(), locale_C, t.c_str());
	sx_check(c == n, "number of units appended"); sx_check(eq(r, p + t), "the text follows what was there"); sx_cover(n < 100 ? "short" : "long");
}
SX_CASE(append) { appends<char>(len()); }
SX_CASE(append_w) { appends<wchar_t>(len()); }
SX_CASE(every_length) { size_t n = sx_bound(960, 0) + sx_choose(sx_bound(130, 2100), "length"); std::string t(n, 'm'), r; if (n) t[n - 1] = (char)sx_range(1, 127, "last"); errno = 0; stdex::sprintf(r, "%s", locale_C, t.c_str()); sx_check(eq(r, t), "text"); sx_cover("text"); }
SX_CASE(every_length_w) { size_t n = sx_bound(220, 0) + sx_choose(sx_bound(80, 1100), "length"); std::wstring t(n, 'm'), r; if (n) t[n - 1] = (wchar_t)sx_range(1, 0xd7ff, "last"); errno = 0; stdex::sprintf(r, L"%ls", locale_C, t.c_str()); sx_check(eq(r, t), "text"); sx_cover("text"); }
template <class T> static std::basic_string<T> vs(const T* f, ...) { va_list a; va_start(a, f); auto r = vsprintf(f, locale_C, a); va_end(a); return r; }
template <class T> static void vs(std::basic_string<T>& r, const T* f, ...) { va_list a; va_start(a, f); vsprintf(r, f, locale_C, a); va_end(a); }
template <class T> static void forms()
{
	size_t n = len(); std::basic_string<T> t = text<T>(n), w = lit<T>("<") + t + lit<T>(">"), r = lit<T>("earlier"); errno = 0;
	switch (sx_choose(4, "form")) {
	case 0: stdex::sprintf(r, F<T>::two(), locale_C, t.c_str()); break;
	case 1: r = stdex::sprintf(F<T>::two(), locale_C, t.c_str()); break;
	case 2: vs(r, F<T>::two(), t.c_str()); break;
	case 3: r = vs(F<T>::two(), t.c_str()); break;
	}
	sx_check(eq(r, w), "nothing but the text"); sx_cover("text");
}
SX_CASE(forms_c) { forms<char>(); }
SX_CASE(forms_w) { forms<wchar_t>(); }
SX_CASE(formats_again)
{
	// appended one after the other
	size_t n = len(); std::string t = text<char>(n), r; errno = 0;
	for (unsigned i = 0; i < 3; ++i) sx_check(appendf(r, "%d%s;", locale_C, (int)i, t.c_str()) == n + 2, "count");
	sx_check(eq(r, "0" + t + ";1" + t + ";2" + t + ";"), "three texts"); sx_cover("texts");
}
SX_CASE(numbers)
{
	uint32_t v = (uint32_t)sx_range(0, 9999, "number"); bool neg = sx_choose(2, "sign"); int wd = (int)sx_choose(7, "width"); std::string r = lit<char>("p"), d; errno = 0;
	int sv = neg ? -(int)v : (int)v; appendf(r, "%0*d|%u|%*s", locale_C, wd, sv, v, wd, "x");
	unsigned nd = v < 10 ? 1 : v < 100 ? 2 : v < 1000 ? 3 : 4; unsigned k = 1, u = v; for (unsigned i = 1; i < nd; ++i) k *= 10;
	for (; k; k /= 10) d += (char)('0' + u / k % 10);
	bool m = neg && v; std::string z(d.size() + m < (size_t)wd ? wd - d.size() - m : 0, '0');
	sx_check(eq(r, "p" + std::string(m ? "-" : "") + z + d + "|" + d + "|" + std::string(wd > 1 ? wd - 1 : 0, ' ') + "x"), "numbers"); sx_cover("numbers");
}
// to a stream
struct sink : stream::basic { std::string t; virtual size_t write(const void* d, size_t n) override { t.append((const char*)d, n); m_state = stream::state_t::ok; return n; } };
SX_CASE(streams)
{
	size_t n = len(); sink s; s.t = "p"; errno = 0;
	if (sx_choose(2, "wide")) { std::wstring t = text<wchar_t>(n); size_t c = s.write_sprintf(L"%ls%c", locale_C, t.c_str(), L'x'); t += L'x'; sx_check(c == n + 1 && s.t.size() == 1 + t.size() * sizeof(wchar_t) && sx_memeq(s.t.data() + 1, t.data(), t.size() * sizeof(wchar_t)), "the whole text, wide"); }
	else { std::string t = text<char>(n); size_t c = s.write_sprintf("%s%c", locale_C, t.c_str(), 'x'); sx_check(c == n + 1 && eq(s.t, "p" + t + "x"), "the whole text"); }
	sx_check(s.ok(), "state"); sx_cover("streamed");
}
SX_CASE(cannot_be_expressed)
{
	// a failure is reported, and nothing is appended
	std::string p(sx_choose(2, "text in front") ? 1500 : 0, 'p'), r = p, t = text<char>(len()); wchar_t bad[] = { L'a', (wchar_t)(0x80 + sx_choose(2, "character") * 0x4000), 0 }; stale();
	try { appendf(r, "%s%ls", locale_C, t.c_str(), bad); sx_fail("a text that cannot be expressed"); } catch (const std::runtime_error&) { sx_cover("refused"); }
	sx_check(eq(r, p), "nothing appended");
}
template <class T> static void times()
{
	struct tm t = {}; t.tm_hour = (int)sx_range(0, 23, "hour"); t.tm_min = (int)sx_range(0, 59, "minute"); t.tm_sec = (int)sx_range(0, 60, "second");
	blen_ = len(); auto x = text<T>(blen_); btext_ = x.data(); static const unsigned pre[] = { 0, 3, 600 }; std::basic_string<T> p(pre[sx_choose(3, "text in front")], 'p'), r = p;
	static const char* const fm[] = { "%B", "%H:%M:%S %B", "", "%p", "%p%p", "x" }; unsigned f = sx_choose(6, "format"); auto fmt = lit<T>(fm[f]); std::basic_string<T> w;
	auto two = [&](int v) { w += (T)('0' + v / 10); w += (T)('0' + v % 10); };
	if (f == 1) { two(t.tm_hour); w += ':'; two(t.tm_min); w += ':'; two(t.tm_sec); w += ' '; }
	if (f < 2) w += x; else if (f == 5) w += 'x';
	switch (sx_choose(3, "form")) {
	case 0: strcatftime(r, fmt.c_str(), &t, locale_C); w = p + w; break;
	case 1: stdex::strftime(r, fmt.c_str(), &t, locale_C); break;
	case 2: r = stdex::strftime(fmt.c_str(), &t, locale_C); break;
	}
	sx_check(eq(r, w), "text of a time"); sx_cover(w.empty() ? "empty" : "text");
}
SX_CASE(times_c) { times<char>(); }
SX_CASE(times_w) { times<wchar_t>(); }
template <class T> static void stamps()
{
	typedef chrono::aosn_timestamp S; uint8_t h = (uint8_t)sx_range(0, 23, "hour"), mi = (uint8_t)sx_range(0, 59, "minute"), s = (uint8_t)sx_range(0, 59, "second");
	static const struct { uint8_t d, m; int y, n; } day[] = { { 1, 1, 2000, 1 }, { 29, 2, 2024, 60 }, { 1, 3, 2023, 60 }, { 31, 12, 2024, 366 }, { 31, 12, 1900, 365 }, { 31, 12, 1, 365 } }; auto& d = day[sx_choose(6, "day")];
	blen_ = len(); auto x = text<T>(blen_); btext_ = x.data(); std::basic_string<T> w; auto two = [&](int v) { w += (T)('0' + v / 10); w += (T)('0' + v % 10); };
	static const char* const fm[] = { "%H%M%S%B", "%d %j", "", "%p", "%j" }; unsigned f = sx_choose(5, "format"); auto fmt = lit<T>(fm[f]);
	if (f == 0) { two(h); two(mi); two(s); w += x; } else if (f == 1) { two(d.d); w += ' '; }
	if (f == 1 || f == 4) { w += (T)('0' + d.n / 100); two(d.n % 100); }
	auto r = S::to_str(S::from_dmy(d.d, d.m, d.y, h, mi, s, 0), fmt.c_str(), locale_C);
	sx_check(eq<T>(r, w), "text of a timestamp"); sx_cover(w.empty() ? "empty" : "text");
}
SX_CASE(stamps_c) { stamps<char>(); }
SX_CASE(stamps_w) { stamps<wchar_t>(); }
SX_CASE(no_zone)
{
	// the time zone is never made of what happened to be in memory
	typedef chrono::aosn_timestamp S; auto r = S::to_str(S::from_dmy(1, 1, 2000, 0, 0, 0, 0), "[%Z]", locale_C);
	sx_check(r.size() >= 2 && r[0] == '[' && r[r.size() - 1] == ']', "zone"); sx_cover("zone");
}
