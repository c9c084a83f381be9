// @bounds every value of every scalar type; strings of 0..3 arbitrary characters of 1, 2 and 4 bytes, vectors, sets and multisets of 0..3 arbitrary elements, vectors of strings; the stream cut at every byte, transfers of any size, failure at any call; read_array/write_array of elements of 1..4 bytes
// @outside longer strings and containers; announced lengths far beyond the data actually there (allocation failure)
#include "mock.h"
#include <set>
using namespace std;
using namespace stdex::stream;
// a pipe: what is written can be read back, in portions, up to a cut
struct pipe_stream : mock_source {
	virtual size_t write(const void* d, size_t l) { sx_check(n + l <= MOCK_MAX, "harness: pipe too small"); memcpy(data + n, d, l); n += l; m_state = state_t::ok; return l; }
	void cut(size_t at) { n = at; }
};
template <class T> static void scalar_bytes(const char* name)
{
	pipe_stream s; T v; sx_symbolic(&v, sizeof(v), name); uint8_t raw[8]; memcpy(raw, &v, sizeof(v));
	basic& b = s;
	b << v << (uint8_t)0x77;
	sx_check(s.n == sizeof(T) + 1 && sx_memeq(s.data, raw, sizeof(T)), "little-endian byte order");
	size_t c = sx_choose(sizeof(T) + 2, "cut"); s.cut(c); s.partial = true; s.eof_with_data = sx_choose(2, "eof");
	T w; memset(&w, 0xee, sizeof(w)); uint8_t e = 0xee, zero[8] = {};
	b >> w;
	if (c >= sizeof(T)) {
		sx_check(sx_memeq(&w, raw, sizeof(T)), "the value is read back"); sx_check(s.pos == sizeof(T), "the stream is positioned right after it");
		if (b.ok()) { b >> e; sx_check(c == sizeof(T) + 1 ? e == 0x77 : (e == 0 && !b.ok()), "chained read"); }
		sx_cover("round trip");
	} else { sx_check(!b.ok() && sx_memeq(&w, zero, sizeof(T)), "truncation is reported, without a value"); sx_cover("truncated"); b >> w; sx_check(!b.ok(), "stays failed"); }
}
SX_CASE(i8) { scalar_bytes<int8_t>("v"); }
SX_CASE(u8) { scalar_bytes<uint8_t>("v"); }
SX_CASE(c8) { scalar_bytes<char>("v"); }
SX_CASE(i16) { scalar_bytes<int16_t>("v"); }
SX_CASE(u16) { scalar_bytes<uint16_t>("v"); }
SX_CASE(i32) { scalar_bytes<int32_t>("v"); }
SX_CASE(u32) { scalar_bytes<uint32_t>("v"); }
SX_CASE(f32) { scalar_bytes<float>("v"); }
SX_CASE(i64) { scalar_bytes<int64_t>("v"); }
SX_CASE(u64) { scalar_bytes<uint64_t>("v"); }
SX_CASE(f64) { scalar_bytes<double>("v"); }
template <class T> static basic_string<T> any_string(uint32_t max)
{
	basic_string<T> s; for (size_t i = 0, n = sx_choose(max + 1, "length"); i < n; i++) { T c; sx_symbolic(&c, sizeof(c), "char"); s += c; }
	return s;
}
template <class T> static void strings()
{
	pipe_stream s; basic& b = s; basic_string<T> v = any_string<T>(3), w(2, 'x'); uint8_t e = 0xee;
	b << v << (uint8_t)0x77;
	size_t total = 4 + v.size() * sizeof(T) + 1, len = v.size(), c = sx_choose((uint32_t)total + 1, "cut");
	sx_check(b.ok() && s.n == total && s.data[0] == len && !s.data[1] && !s.data[2] && !s.data[3] && sx_memeq(s.data + 4, v.data(), len * sizeof(T)), "length and characters");
	s.cut(c); s.partial = c >= total - 1; b >> w;
	if (c >= total - 1) { sx_check(b.ok() && w == v, "the string is read back"); if (c == total) { b >> e; sx_check(e == 0x77, "the stream is positioned right after it"); } sx_cover("string"); }
	else { sx_check(!b.ok() && w == v.substr(0, c < 4 ? 0 : (c - 4) / sizeof(T)), "truncation is reported, with only what was there"); sx_cover("truncated string"); }
}
SX_CASE(string8) { strings<char>(); }
SX_CASE(string16) { strings<char16_t>(); }
SX_CASE(string32) { strings<char32_t>(); }
SX_CASE(cstring)
{
	pipe_stream s; basic& b = s; string v = any_string<char>(3), w; for (char c : v) sx_assume(c != 0);
	b << v.c_str(); b >> w; sx_check(b.ok() && w == v && s.pos == s.n, "a zero-terminated string is written like a string");
}
SX_CASE(vectors)
{
	pipe_stream s; basic& b = s; vector<uint16_t> v, w(1); size_t n = sx_choose(4, "n"); uint8_t e;
	for (size_t i = 0; i < n; i++) v.push_back(sx_u16("el"));
	sx_check(&(b << v << (uint8_t)0x77) == &b, "chained writing");
	size_t total = 4 + 2 * n + 1, c = sx_choose((uint32_t)total + 1, "cut"); s.cut(c); s.partial = c >= total - 1;
	sx_check(&(b >> w) == &b, "chained reading");
	if (c >= total - 1) { sx_check(b.ok() && w == v, "the vector is read back"); b >> e; sx_check(c == total ? b.ok() && e == 0x77 : !b.ok(), "positioned right after it"); sx_cover("vector"); }
	else { size_t k = c < 4 ? 0 : (c - 4) / 2; sx_check(!b.ok() && w == vector<uint16_t>(v.begin(), v.begin() + k), "truncation is reported, with only what was there"); sx_cover("truncated vector"); }
}
SX_CASE(vector_of_strings)
{
	pipe_stream s; basic& b = s; vector<string> v, w(1); size_t n = sx_choose(3, "n");
	for (size_t i = 0; i < n; i++) v.push_back(any_string<char>(2));
	b << v; size_t total = s.n, c = sx_choose((uint32_t)total + 1, "cut"); s.cut(c);
	b >> w;
	if (c == total) sx_check(b.ok() && w == v && s.pos == total, "the vector is read back");
	else { sx_check(!b.ok() && w.size() <= v.size(), "truncation is reported"); for (size_t i = 0; i < w.size(); i++) sx_check(w[i] == v[i], "with only what was there"); }
}
template <class S> static void sets()
{
	pipe_stream s; basic& b = s; S v, w; w.insert(1); size_t n = sx_choose(4, "n");
	for (size_t i = 0; i < n; i++) v.insert(sx_u8("el"));
	b << v << (uint8_t)0x77; size_t total = s.n, c = sx_choose((uint32_t)total + 1, "cut"); s.cut(c); uint8_t e;
	sx_check(&(b >> w) == &b, "chained reading");
	if (c >= total - 1) { sx_check(b.ok() && w == v, "the set is read back"); if (c == total) { b >> e; sx_check(e == 0x77, "positioned right after it"); } sx_cover("set"); }
	else sx_check(!b.ok() && w.size() <= v.size(), "truncation is reported");
}
SX_CASE(set) { sets<std::set<uint8_t>>(); }
SX_CASE(multiset) { sets<std::multiset<uint8_t>>(); }
SX_CASE(arrays)
{
	mock_source s(sx_choose(10, "n"), "data"); s.partial = true; s.failing = sx_choose(2, "failing");
	size_t size = 1 + sx_choose(4, "size"), count = sx_choose(4, "count"); uint8_t a[16]; memset(a, 0xee, 16);
	size_t k = s.read_array(a, size, count);
	size_t got = min(size * count, s.n);
	if (s.failed) { sx_check(k <= got / size && !s.ok(), "failure is reported"); sx_check(k == s.pos / size && sx_memeq(a, s.data, s.pos), "the count is of complete elements"); sx_cover("failed array"); }
	else { sx_check(k == got / size && s.pos == got && sx_memeq(a, s.data, got), "all complete elements are read"); sx_check(s.ok() == (k == count), "a short array is reported"); if (got % size) sx_cover("partial element"); }
	sx_check(a[size * count] == 0xee, "nothing beyond is written");
	mock_sink t; t.failing = true; t.partial = true; uint8_t d[16]; sx_symbolic(d, size * count, "written");
	k = t.write_array(d, size, count);
	sx_check(k == t.n / size && sx_memeq(t.data, d, t.n) && (t.ok() ? k == count : k <= count), "arrays are written, the count is of complete elements");
}
SX_CASE(failed_stream)
{
	pipe_stream s; basic& b = s; b << (uint32_t)2; s.failed = true; b.read_array(nullptr, 1, 0); uint8_t t; s.read(&t, 1);
	string str("x"); vector<uint8_t> v(2); std::set<uint8_t> st; uint32_t u = 7; double d = 7;
	b >> str >> v >> st >> u >> d;
	sx_check(!b.ok() && str.empty() && v.empty() && st.empty() && u == 0 && d == 0, "reading from a failed stream gives nothing");
	size_t n = s.n; b << u << str << v << d; sx_check(s.n == n, "a failed stream is not written to");
	sx_cover("failed");
}
SX_CASE(file_formats_agree)
{
	memory_file f; pipe_stream s; basic& b = s; uint32_t u = sx_u32("u"); uint16_t h = sx_u16("h"); string v = any_string<char>(3); double d; sx_symbolic(&d, 8, "d");
	b << u << v << h << d; f << u << v << h << d;
	sx_check(f.size() == s.n && sx_memeq(f.data(), s.data, s.n), "a memory file writes the same format");
}
