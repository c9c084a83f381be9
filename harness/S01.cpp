// @bounds every history of 3 (thorough 4) operations (seek to 0..9, from the cursor and from the end; read, write, write_byte of 0..4 bytes; truncate; typed accesses; copies and moves) on a file of 0..6 arbitrary bytes; files over caller-supplied memory of 0..6 bytes
// @outside longer histories; the growth step of 64 KiB being exceeded more than once; allocation failure; loading and saving files (S12 covers the operating-system side)
#include "mock.h"
using namespace std;
using namespace stdex::stream;
static const uint8_t* at(memory_file& f) { return (const uint8_t*)f.data(); }
static void agree(memory_file& f, ideal_file& r)
{
	sx_check(f.tell() == r.tell(), "position");
	sx_check(f.size() == r.size(), "size");
	sx_check(!r.n || sx_readable(f.data(), r.n), "the data are inside the allocation");
	if (r.n) sx_check(sx_memeq(f.data(), r.data, r.n), "content");
}
static void op(memory_file& f, ideal_file& r)
{
	uint8_t a[8], b[8];
	switch (sx_choose(9, "op")) {
	case 0: { size_t p = sx_choose(10, "pos"); r.seekbeg(p); sx_check(f.seekbeg(p) == p && f.ok(), "seek: result"); break; }
	case 1: { int64_t d = (int64_t)sx_choose(4, "off") - 2; if ((int64_t)r.pos + d < 0) d = 0; auto x = r.seekcur(d); sx_check(f.seekcur(d) == x, "seek: result"); break; }
	case 2: { int64_t d = (int64_t)sx_choose(4, "off") - 2; if ((int64_t)r.n + d < 0) d = 0; auto x = r.seekend(d); sx_check(f.seekend(d) == x, "seek: result"); break; }
	case 3: {
		size_t l = sx_choose(5, "len"); memset(b, 0xee, 8);
		size_t x = r.read(a, l), y = f.read(b, l);
		sx_check(x == y && sx_memeq(a, b, x) && b[x] == 0xee, "read: data");
		sx_check(f.state() == r.state(), "read: state");
		if (!x && l && r.pos > r.n) sx_cover("read past the end");
		break;
	}
	case 4: { size_t l = sx_choose(5, "len"); sx_symbolic(a, l, "written"); if (r.pos > r.n && l) sx_cover("write past the end"); r.write(a, l); sx_check(f.write(a, l) == l && f.ok(), "write: result"); break; }
	case 5: { size_t l = sx_choose(4, "amount"); uint8_t v = sx_u8("byte"); memset(a, v, 8); r.write(a, l); f.write_byte(v, l); sx_check(f.ok(), "write_byte: state"); break; }
	case 6: r.truncate(); f.truncate(); sx_check(f.ok(), "truncate: state"); break;
	case 7: { uint32_t v = sx_u32("value"); if (!f.ok()) f.seekcur(0); r.write(&v, 4); f << v; sx_check(f.ok(), "typed write: state"); break; }
	case 8: {
		if (!f.ok()) { uint32_t v = 5; size_t p = r.pos; f >> v; sx_check(v == 0 && f.tell() == p && !f.ok(), "typed read on a failed stream"); f.seekcur(0); break; }
		uint32_t v = 5, w = 0;
		if (r.pos + 4 <= r.n) { r.read(&w, 4); f >> v; sx_check(v == w && f.ok(), "typed read: value"); sx_cover("typed read"); }
		else if (r.pos <= r.n) { r.pos = r.n; f >> v; sx_check(v == 0 && f.state() == state_t::eof, "typed read of too little data"); f.seekcur(0); }
		break;
	}
	}
	// an empty write or truncation past the end
	agree(f, r);
}
static void start(memory_file& f, ideal_file& r)
{
	r.n = sx_choose(7, "n"); sx_symbolic(r.data, r.n, "content");
	f.write(r.data, r.n); r.pos = r.n;
	agree(f, r);
}
SX_CASE(history)
{
	uint64_t live = sx_live_blocks();
	{
		memory_file f; ideal_file r;
		start(f, r);
		for (unsigned k = 0, n = sx_bound(3, 4); k < n; k++) op(f, r);
	}
	sx_check(sx_live_blocks() == live, "the memory is released");
}
SX_CASE(copies)
{
	uint64_t live = sx_live_blocks();
	{
		memory_file f; ideal_file r, r2;
		start(f, r); op(f, r); r2 = r;
		memory_file g; g.write("12345678", 8);
		unsigned how = sx_choose(4, "how");
		memory_file* h;
		if (how == 0) h = new memory_file(f);
		else if (how == 1) { g = f; h = &g; }
		else if (how == 2) h = new memory_file(std::move(f));
		else { g = std::move(f); h = &g; }
		agree(*h, r);
		if (how < 2) { op(f, r2); agree(*h, r); sx_cover("copied"); }
		else { sx_check(f.size() == 0 && f.tell() == 0, "a moved-from file is empty"); sx_cover("moved"); }
		h->seekcur(0); op(*h, r);
		if (how < 2) agree(f, r2);
		if (how == 0 || how == 2) delete h;
	}
	sx_check(sx_live_blocks() == live, "the memory is released");
}
// over memory of the caller, which cannot grow
SX_CASE(fixed)
{
	uint8_t* m = new uint8_t[6]; uint8_t a[8], b[8];
	ideal_file r; size_t cap = sx_choose(7, "capacity"); r.n = sx_choose((uint32_t)cap + 1, "n");
	sx_symbolic(r.data, r.n, "content"); memcpy(m, r.data, r.n); memset(m + r.n, 0xee, 6 - r.n);
	{
		memory_file f(m, r.n, cap, false);
		for (unsigned k = 0; k < 2; k++) {
			size_t p = sx_choose(7, "pos"), l = sx_choose(5, "len");
			f.seekbeg(p); r.seekbeg(p);
			if (sx_choose(2, "op")) {
				sx_symbolic(a, l, "written");
				size_t x = f.write(a, l);
				if (p + l <= cap || !l) { if (l) r.write(a, l); sx_check(x == l && f.ok(), "a write that fits works"); }
				else { sx_check(x == 0 && !f.ok(), "a write that does not fit is refused"); f.seekbeg(p); sx_cover("refused"); }
			} else {
				size_t x = r.read(a, l), y = f.read(b, l);
				sx_check(x == y && sx_memeq(a, b, x), "read: data");
			}
			agree(f, r);
			sx_check(f.data() == m, "the caller's memory is used");
			bool clean = true; for (size_t i = cap; i < 6; i++) clean &= m[i] == 0xee;
			sx_check(clean, "nothing beyond the caller's memory is touched");
		}
	}
	delete[] m;
}
// growing keeps the content
SX_CASE(growth)
{
	memory_file f; uint8_t a[4], b[4];
	sx_symbolic(a, 4, "data");
	f.write(a, 2); f.write_byte(0, 65533); f.write(a + 2, 2); // crosses the first reservation
	sx_check(f.ok() && f.size() == 65537, "size after growth");
	f.seekbeg(0); f.read(b, 2); f.seekbeg(65535); f.read(b + 2, 2);
	sx_check(sx_memeq(a, b, 4), "growing keeps the content");
	f.seekbeg(3); f.truncate(); f.seekbeg(0);
	sx_check(f.size() == 3 && f.read(b, 4) == 3 && sx_memeq(a, b, 2) && b[2] == 0, "cutting keeps the rest");
	f.reserve(3, true); sx_check(f.ok() && f.size() == 3 && sx_memeq(f.data(), a, 2), "a tight reservation keeps the content");
	sx_cover("growth");
}
// positioned access
SX_CASE(positioned)
{
	memory_file f; uint8_t d[16]; sx_symbolic(d, 16, "content"); f.write(d, 16);
	size_t p = sx_choose(9, "pos");
	uint64_t v; f.get(p, v); sx_check(sx_memeq(&v, d + p, 8), "get reads at the position");
	uint16_t w = sx_u16("value"); f.set(p, w); memcpy(d + p, &w, 2);
	uint8_t c; f.get(p, c); sx_check(c == d[p], "set writes at the position");
	sx_check(sx_memeq(f.data(), d, 16) && f.tell() == 16, "nothing else changes");
	f.close(); sx_check(f.size() == 0 && f.tell() == 0 && f.ok(), "closing empties the file");
	sx_cover("positioned");
}
// strings
template <class T> static void text()
{
	memory_file f; basic_string<T> s; size_t n = sx_choose(4, "length");
	for (size_t i = 0; i < n; i++) { T c; sx_symbolic(&c, sizeof(c), "char"); s += c; }
	f << s << (uint8_t)0x55;
	sx_check(f.size() == 5 + n * sizeof(T), "a string is written as its length and characters");
	size_t cut = sx_choose((uint32_t)(5 + n * sizeof(T)), "cut");
	memory_file g; g.write(f.data(), f.size());
	f.seekbeg(0); basic_string<T> t(2, 'x'); uint8_t e;
	f >> t; sx_check(f.ok() && t == s, "a string is read back"); f >> e; sx_check(e == 0x55, "the next value follows");
	// truncated
	g.seekbeg(cut); g.truncate(); g.seekbeg(0); t.assign(2, 'x');
	g >> t;
	if (cut < 4 + n * sizeof(T)) { sx_check(g.state() == state_t::eof, "a truncated string is reported"); sx_check(t == s.substr(0, cut < 4 ? 0 : (cut - 4) / sizeof(T)), "a truncated string leaves what was there, nothing else"); sx_cover("truncated string"); }
	else sx_check(g.ok() && t == s, "a complete string is read back");
}
SX_CASE(string_char) { text<char>(); }
SX_CASE(string_utf16) { text<char16_t>(); }
// filling from a stream
SX_CASE(from_stream)
{
	mock_source s(sx_choose(5, "n"), "data"); s.partial = true; s.failing = sx_choose(2, "failing");
	memory_file f; uint8_t d[4]; sx_symbolic(d, 3, "before"); f.write(d, 3);
	size_t p = sx_choose(6, "pos"), amount = sx_choose(7, "amount"); f.seekbeg(p);
	if (amount == 6) amount = SIZE_MAX;
	size_t k = f.write_stream(s, amount);
	sx_check(k == s.pos && k <= amount, "the count is what was taken");
	sx_check(s.failed || k == min(amount, s.n), "everything is taken");
	sx_check(f.ok() == !s.failed, "failure of the source is reported");
	sx_check(f.tell() == p + k, "the cursor is after the last byte");
	if (k) sx_check(f.size() == max<size_t>(3, p + k) && sx_memeq(at(f) + p, s.data, k), "the bytes are stored at the cursor");
	sx_check(sx_memeq(at(f), d, min<size_t>(p, 3)), "what was there before stays");
	for (size_t i = 3; i < p && k; i++) sx_check(at(f)[i] == 0, "the gap is zero");
	if (p == 5 && k) sx_cover("filled past the end");
}
