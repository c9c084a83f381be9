// @bounds up to 3 records of 0..3 arbitrary bytes with chosen identifiers, nested one level, 8-, 16- and 32-bit identifiers and sizes, alignment 1..4; arbitrary foreign files of 0..6 (thorough 0..8) bytes with 8-bit identifiers and sizes, searched from any place up to any end; records cut at any byte; a record with the largest size its length field can hold
// @outside the std::istream/std::ostream variants of the same functions; record data longer than the size type can express
#include "mock.h"
#include <stdex/idrec.hpp>
using namespace stdex::stream;
using fpos = stdex::stream::fpos_t;
struct blob { std::string s; };
inline basic& operator <<(basic& d, const blob& b) { if (b.s.size()) d.write(b.s.data(), b.s.size()); return d; }
inline basic& operator >>(basic& d, blob& b) { auto r = d.read_remainder(); b.s.assign((const char*)r.data(), r.size()); return d; }
struct three { uint8_t a, b, c; }; // of a fixed size
inline basic& operator <<(basic& d, const three& b) { return d << b.a << b.b << b.c; }
inline basic& operator >>(basic& d, three& b) { return d >> b.a >> b.b >> b.c; }
static std::string any(unsigned max) { unsigned n = sx_choose(max + 1, "length"); std::string s(n, 0); if (n) sx_symbolic(&s[0], n, "data"); return s; }
static bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && sx_memeq(a.data(), b.data(), a.size()); }
template <class T> static void put(std::string& w, T v) { w.append((const char*)&v, sizeof(v)); }
template <class I, class S, unsigned A> static void layout(std::string& w, I id, const std::string& d) { put(w, id); put(w, (S)d.size()); w += d; w.append((A - d.size() % A) % A, 0); }
static std::string bytes(memory_file& f) { return std::string((const char*)f.data(), (size_t)f.size()); }

template <class I, class S, S A> static void many()
{
	using stdex::idrec::record;
	using rx = record<blob, I, 0x41, S, A>; using ry = record<blob, I, 0x62, S, A>;
	memory_file f; std::string w; blob d[3]; bool y[3]; size_t at[4]; unsigned n = 1 + sx_choose(sx_bound(2, 3), "records");
	basic& plain = f; bool via = sx_choose(2, "plain stream");
	for (unsigned i = 0; i < n; ++i) {
		d[i].s = any(i ? 1 : 3); y[i] = sx_choose(2, "id"); at[i] = w.size();
		if (y[i]) { if (via) plain << ry(d[i]); else f << ry(d[i]); } else { if (via) plain << rx(d[i]); else f << rx(d[i]); }
		sx_check(f.ok(), "written");
		layout<I, S, A>(w, y[i] ? 0x62 : 0x41, d[i].s); sx_check(f.tell() == w.size(), "after the record");
	}
	at[n] = w.size();
	sx_check(same(bytes(f), w), "header, data and padding");
	f.seekbeg(0);
	for (unsigned i = 0; i < n; ++i) { // one after another
		sx_check(f.tell() == at[i], "at the next record"); I id; sx_check(stdex::idrec::read_id(f, id, (fpos)w.size()) && id == (y[i] ? 0x62 : 0x41), "identifier");
		unsigned how = sx_choose(3, "how");
		if (how == 0) { if (via) sx_check((stdex::idrec::ignore<S, A>(plain)), "skipped"); else sx_check((stdex::idrec::ignore<S, A>(f)), "skipped"); }
		else { blob r; r.s = "old"; if (how == 1) f >> rx(r); else plain >> ry(r); sx_check(f.ok() && same(r.s, d[i].s), "record read back"); }
	}
	I id; sx_check(f.tell() == w.size(), "at the end"); sx_check(!stdex::idrec::read_id(f, id, (fpos)w.size()), "no more records");
	f.seekbeg(0); unsigned k = 0;
	while (k < n && !y[k]) ++k;
	bool found = ry::find(f, sx_choose(2, "end") ? fpos_max : (fpos)w.size());
	sx_check(found == (k < n), "found if there");
	if (found) { sx_check(f.tell() == at[k] + sizeof(I), "at the size"); blob r; f >> ry(r); sx_check(same(r.s, d[k].s) && f.tell() == at[k + 1], "found record read back"); sx_cover("found"); }
	else sx_cover("not there");
}
SX_CASE(many_8_8_1) { many<uint8_t, uint8_t, 1>(); }
SX_CASE(many_32_32_2) { many<uint32_t, uint32_t, 2>(); }
SX_CASE(many_16_8_4) { many<uint16_t, uint8_t, 4>(); }
SX_CASE(many_8_16_3) { many<uint8_t, uint16_t, 3>(); }
SX_CASE(nested)
{
	using outer = stdex::idrec::record<blob, uint32_t, 0x4f, uint32_t, 2>; using inner = stdex::idrec::record<blob, uint32_t, 0x49, uint32_t, 2>;
	memory_file f; blob a, b; a.s = any(2); b.s = any(3); unsigned lead = sx_choose(2, "lead"); if (lead) f << (uint8_t)7;
	auto o = outer::open(f); f << inner(a); auto i = inner::open(f); f << b; inner::close(f, i); auto e = outer::close(f, o); blob z; z.s = "z"; f << inner(z);
	sx_check(f.ok(), "written");
	std::string w, v(lead, 7); layout<uint32_t, uint32_t, 2>(w, 0x49, a.s); layout<uint32_t, uint32_t, 2>(w, 0x49, b.s); layout<uint32_t, uint32_t, 2>(v, 0x4f, w); sx_check(e == v.size(), "end of the record"); layout<uint32_t, uint32_t, 2>(v, 0x49, z.s);
	sx_check(same(bytes(f), v), "nested records");
	f.seekbeg(lead); sx_check(outer::find(f), "outer record"); uint32_t size; f >> size; fpos end = f.tell() + size; sx_check(size == w.size(), "size of the outer record");
	blob r; sx_check(inner::find(f, end), "first inner record"); f >> inner(r); sx_check(same(r.s, a.s), "first inner record read back");
	sx_check(inner::find(f, end), "second inner record"); f >> inner(r); sx_check(same(r.s, b.s) && f.tell() == end, "second inner record read back");
	sx_check(!inner::find(f, end), "no other record inside"); sx_check(f.tell() == end, "not beyond the end"); sx_cover("nested");
}
SX_CASE(narrow_reader) // a reader that takes less or wants more than there is
{
	using rb = stdex::idrec::record<blob, uint8_t, 0x41, uint8_t, 4>; using rt = stdex::idrec::record<three, uint8_t, 0x41, uint8_t, 4>;
	memory_file f; basic& plain = f; blob d; d.s = any(5); f << rb(d); fpos end = f.tell(); f << (uint8_t)0x11 << (uint8_t)0x22 << (uint8_t)0x33 << (uint8_t)0x44;
	f.seekbeg(1); three t{ 9, 9, 9 }; bool via = sx_choose(2, "plain stream");
	if (via) plain >> rt(t); else f >> rt(t);
	if (d.s.size() >= 3) {
		sx_check(f.ok() && t.a == (uint8_t)d.s[0] && t.b == (uint8_t)d.s[1] && t.c == (uint8_t)d.s[2], "start of the record");
		sx_check(f.tell() == end, "rest of the record skipped"); sx_cover("less");
	} else {
		// nothing beyond the record
		sx_check(t.a == (d.s.size() > 0 ? (uint8_t)d.s[0] : 0) && t.b == (d.s.size() > 1 ? (uint8_t)d.s[1] : 0) && t.c == 0, "nothing but the record is read");
		sx_check(f.tell() <= end, "not beyond the record"); sx_cover("more");
	}
}
SX_CASE(cut)
{
	using rb = stdex::idrec::record<blob, uint16_t, 0x4241, uint16_t, 2>;
	memory_file f; basic& plain = f; blob d, e; d.s = any(3); e.s = any(2); f << rb(d); size_t second = (size_t)f.tell(); f << rb(e);
	size_t n = sx_choose((uint32_t)f.size(), "cut"); f.seekbeg(n); f.truncate(); f.seekbeg(0);
	bool via = sx_choose(2, "plain stream"); unsigned got = 0;
	for (; rb::find(f); ++got) {
		sx_check(got < 2, "no more than written"); blob r; const std::string& s = got ? e.s : d.s; size_t at = (got ? second : 0) + 4;
		if (via) plain >> rb(r); else f >> rb(r);
		size_t have = n < at ? 0 : n - at < s.size() ? n - at : s.size();
		sx_check(same(r.s, s.substr(0, have)), "what is there is read"); 
	}
	sx_check(got == (n < 2 ? 0 : n < second + 2 ? 1 : 2), "as many as begin in the file"); sx_check(f.size() == n, "the file does not grow"); sx_cover("cut");
}
template <unsigned A> static void foreign()
{
	unsigned n = sx_choose(sx_bound(6, 8) + 1, "n"); uint8_t* raw = new uint8_t[n ? n : 1]; sx_symbolic(raw, n, "file");
	memory_file f(raw, (size_t)n, (size_t)n); unsigned from = sx_choose(n + 1, "from"), end = sx_choose(n + 3, "end"); bool open = end == n + 2; // n + 1: beyond
	f.seekbeg(from); bool r = stdex::idrec::find<uint8_t, uint8_t, A>(f, 0x41, open ? fpos_max : (fpos)end);
	bool w = false; size_t at = from;
	while (open || at < end) {
		if (at >= n) break;
		if (raw[at] == 0x41) { w = true; ++at; break; }
		if (at + 1 >= n) break;
		size_t size = sx_concrete(raw[at + 1]); at += 2 + size + (A - size % A) % A;
	}
	sx_check(r == w, "found if there"); if (w) sx_check(f.tell() == at, "at the size"), sx_cover("foreign"); else sx_cover("none");
	delete[] raw;
}
SX_CASE(foreign_1) { foreign<1>(); }
SX_CASE(foreign_2) { foreign<2>(); }
SX_CASE(foreign_4) { foreign<4>(); }
template <class S, S A> static void largest()
{
	using rb = stdex::idrec::record<blob, uint8_t, 0x41, S, A>;
	memory_file f; basic& plain = f; blob d; unsigned n = 255 - sx_choose(5, "less"); d.s.assign(n, 'x'); f << rb(d); size_t end = n + 2 + (A - n % A) % A;
	sx_check(f.ok() && f.tell() == end && f.size() == end, "the largest records are padded"); f << rb(d);
	unsigned how = sx_choose(4, "how"); f.seekbeg(1); blob r;
	if (how == 0) f >> rb(r); else if (how == 1) plain >> rb(r); else if (how == 2) stdex::idrec::ignore<S, A>(f); else stdex::idrec::ignore<S, A>(plain);
	sx_check(f.ok() && f.tell() == end, "at the next record"); if (how < 2) sx_check(r.s == d.s, "read back"); sx_cover("largest");
}
SX_CASE(largest_2) { largest<uint8_t, 2>(); }
SX_CASE(largest_4) { largest<uint8_t, 4>(); }
