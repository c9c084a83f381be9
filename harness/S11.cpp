// @bounds sources of 0..7 arbitrary bytes with any sequence of short transfers and failures, any amount 0..8 or all; sinks that fail or accept part; skips of 0..8 and, over the switch between algorithms, of 14..18 bytes; sources of 65536..65541 bytes and amounts around the 64 KiB block size; texts of 0..6 arbitrary characters of 1 and 2 bytes
// @outside larger data; allocation failure; lines read through a character-set encoder that really converts (N01)
#include "mock.h"
using namespace std;
using namespace stdex::stream;
SX_CASE(copy)
{
	mock_source s(sx_choose(6, "n"), "data"); s.partial = true; s.failing = sx_choose(2, "failing"); s.eof_with_data = sx_choose(2, "eof");
	mock_sink t; t.failing = sx_choose(2, "sink failing"); t.partial = t.failing;
	size_t amount = sx_choose(7, "amount"); bool all = amount == 6;
	fsize_t k = all ? t.write_stream(s) : t.write_stream(s, amount);
	size_t want = all ? s.n : min(amount, s.n);
	sx_check(k == t.n && sx_memeq(t.data, s.data, t.n), "the target gets the source's bytes, and their count is reported");
	if (t.ever && t.n == s.pos) { sx_check(k <= want, "an empty write that fails loses nothing"); return; }
	if (t.ever) { sx_check(!t.ok() && k <= want, "a failing target is reported"); sx_cover("target fails"); }
	else { sx_check(s.pos == t.n, "the source is left right after the last byte copied"); }
	if (!s.failed && !t.ever) { sx_check(k == want, "everything is copied"); sx_check(t.ok(), "the end of the source is no error"); sx_cover("complete"); }
	if (s.failed && !t.ever) { sx_check(!t.ok() || k == want, "a failing source is reported"); sx_cover("source fails"); }
}
// a long source of known content
struct long_source : basic {
	size_t n, pos = 0; unsigned max_partial = 1; bool partial = false;
	static uint8_t at(size_t i) { return (uint8_t)(i * 31 + (i >> 8) * 7); }
	virtual size_t read(void* d, size_t l)
	{
		size_t k = min(l, n - pos);
		if (partial && max_partial && k > 2) { static const size_t P[] = { 0, 1, 2 }; size_t p = P[sx_choose(3, "source transfers")]; if (p) { max_partial--; k = p == 1 ? 1 : k - 1; } }
		for (size_t i = 0; i < k; i++) ((uint8_t*)d)[i] = at(pos + i);
		pos += k; m_state = k || !l ? state_t::ok : state_t::eof;
		return k;
	}
};
struct long_sink : basic {
	size_t n = 0; bool good = true;
	virtual size_t write(const void* d, size_t l) { for (size_t i = 0; i < l; i++) good &= ((const uint8_t*)d)[i] == long_source::at(n + i); n += l; m_state = state_t::ok; return l; }
};
SX_CASE(copy_long)
{
	long_source s; s.n = 65535 + sx_choose(3, "n"); s.partial = true; long_sink t;
	size_t amount = 65535 + sx_choose(4, "amount"); bool all = amount == 65538;
	fsize_t k = all ? t.write_stream(s) : t.write_stream(s, amount);
	sx_check(k == (all ? s.n : min(amount, s.n)) && t.n == k && t.good && s.pos == k && t.ok(), "copies of more than one block are exact");
	sx_cover("long copy");
}
SX_CASE(remainder)
{
	mock_source s(sx_choose(6, "n"), "data"); s.partial = true; s.failing = sx_choose(2, "failing");
	size_t maxl = sx_choose(7, "max"); bool all = maxl == 6;
	vector<uint8_t> v = all ? s.read_remainder() : s.read_remainder(maxl);
	sx_check(v.size() == s.pos && sx_memeq(v.data(), s.data, v.size()), "the bytes read are returned");
	size_t want = all ? s.n : min(maxl, s.n);
	sx_check(v.size() <= want, "no more than wanted");
	if (!s.failed) { sx_check(v.size() == want, "all of the rest is read"); sx_cover("rest"); }
	else sx_check(!s.ok(), "failure is reported");
}
SX_CASE(remainder_long)
{
	long_source s; s.n = 65535 + sx_choose(3, "n"); s.partial = true;
	size_t maxl = 65535 + sx_choose(4, "max");
	vector<uint8_t> v = maxl == 65538 ? s.read_remainder() : s.read_remainder(maxl);
	bool good = v.size() == min(s.n, maxl == 65538 ? s.n : maxl);
	for (size_t i = 0; i < v.size(); i++) good &= v[i] == long_source::at(i);
	sx_check(good, "rests of more than one block are exact");
}
SX_CASE(remainder_file)
{
	ideal_file f; f.n = sx_choose(6, "n"); sx_symbolic(f.data, f.n, "content"); size_t p = sx_choose(8, "pos"), m = sx_choose(7, "max"); f.pos = p;
	vector<uint8_t> v = m == 6 ? f.read_remainder() : f.read_remainder(m);
	size_t have = p < f.n ? f.n - p : 0, want = m == 6 ? have : min(m, have);
	sx_check(v.size() == want && sx_memeq(v.data(), f.data + p, want) && f.pos == p + want, "the rest of a file");
	if (p > f.n) sx_cover("past the end");
}
SX_CASE(skip)
{
	mock_source s(sx_choose(2, "long") ? 14 + sx_choose(5, "n") : sx_choose(5, "n"), "data"); s.partial = true; s.max_partial = 2; s.failing = sx_choose(2, "failing");
	size_t a = sx_choose(2, "long") ? 14 + sx_choose(5, "amount") : sx_choose(5, "amount");
	s.skip(a);
	sx_check(s.pos <= a && s.pos <= s.n, "no more than wanted is skipped");
	if (!s.failed) sx_check(s.pos == min(a, s.n) && s.ok() == (a <= s.n), "as much as wanted is skipped, running out is reported"); else sx_check(!s.ok() || s.pos == a, "failure is reported");
	if (a >= 16 && s.pos == a) sx_cover("long skip");
}
SX_CASE(skip_long)
{
	long_source s; s.n = 65535 + sx_choose(4, "n"); s.partial = true; size_t a = 65535 + sx_choose(4, "amount");
	s.skip(a); sx_check(s.pos == min(a, s.n) && s.ok() == (a <= s.n), "skipping more than one block");
}
SX_CASE(skip_file)
{
	ideal_file f; f.n = 4; f.pos = sx_choose(6, "pos"); size_t a = sx_choose(6, "amount"), p = f.pos; f.skip(a);
	sx_check(f.pos == p + a && f.ok(), "skipping in a file moves the cursor");
}
SX_CASE(write_bytes)
{
	mock_sink t; t.failing = sx_choose(2, "failing"); uint8_t v = sx_u8("value");
	size_t a = sx_choose(2, "long") ? 14 + sx_choose(5, "amount") : sx_choose(4, "amount");
	t.write_byte(v, a);
	bool good = true; for (size_t i = 0; i < t.n; i++) good &= t.data[i] == v;
	sx_check(good, "the byte is written");
	if (!t.ever) { sx_check(t.n == a && t.ok(), "as often as wanted"); if (a > 16) sx_cover("many bytes"); } else sx_check(t.n < a && !t.ok(), "failure is reported");
	mock_source s(sx_choose(2, "n"), "data");
	try { uint8_t b = s.read_byte(); sx_check(s.n && b == s.data[0], "a byte is read"); } catch (const exception&) { sx_check(!s.n, "running out throws"); sx_cover("no byte"); }
}
// lines
template <class T> static void lines(size_t max)
{
	T text[8]; mock_source s; size_t n = sx_choose((uint32_t)max + 1, "n"); sx_symbolic(text, n * sizeof(T), "text");
	memcpy(s.data, text, n * sizeof(T)); s.n = n * sizeof(T); s.partial = sizeof(T) > 1; s.max_partial = 1;
	size_t p = 0; basic_string<T> l; bool attach = sx_choose(2, "attach");
	for (;;) {
		l.assign(1, (T)'x');
		size_t k = attach ? s.readln_and_attach(l) : s.readln(l), pre = attach ? 1 : 0;
		// the reference: up to the next line feed; a carriage return right before it belongs to the terminator
		size_t e = p; while (e < n && text[e] != (T)'\n') e++;
		bool nl = e < n; size_t len = nl && e > p && text[e - 1] == (T)'\r' ? e - 1 - p : e - p;
		sx_check(k == l.size() && k == pre + len, "the line's length");
		sx_check((!pre || l[0] == (T)'x') && sx_memeq(l.data() + pre, text + p, len * sizeof(T)), "the line's characters");
		sx_check(nl ? s.ok() : s.state() == state_t::eof, "the end is reported with the last line only");
		if (len < e - p) sx_cover("cr lf");
		p = nl ? e + 1 : n;
		sx_check(s.pos == p * sizeof(T), "the stream is left right after the line");
		if (!nl) break;
		sx_cover("line");
	}
}
SX_CASE(lines8) { lines<char>(sx_bound(5, 6)); }
SX_CASE(lines16) { lines<char16_t>(sx_bound(3, 4)); }
SX_CASE(line_fails)
{
	mock_source s(3, "data"); s.failing = true; string l; s.readln(l);
	sx_check(s.ok() == (!s.failed && (s.data[s.pos - 1] == '\n')), "failure is reported");
	for (size_t i = 0; i < l.size(); i++) sx_check(l[i] == (char)s.data[i], "what was read is kept");
}
