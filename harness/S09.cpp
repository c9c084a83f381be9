// @bounds 0..3 files of up to 4 arbitrary bytes (different ones, cursors included), every history of 2 (thorough 3) operations; files that differ in content, size, position, result or state
// @outside more files; longer histories
#include "mock.h"
#include <stdexcept>
using namespace std;
using namespace stdex::stream;
// a file whose answers the checker may falsify
struct odd : ideal_file {
	unsigned lie = 0, locks = 0, ops = 0;
	size_t read(void* d, size_t n) { ops++; size_t r = ideal_file::read(d, n); if (lie == 1 && r) r--; if (lie == 2) m_state = state_t::fail; if (lie == 3 && r) ((uint8_t*)d)[r - 1] ^= 1; return r; }
	size_t write(const void* d, size_t n) { ops++; size_t r = ideal_file::write(d, n); if (lie == 1 && r) r--; if (lie == 2) m_state = state_t::fail; return r; }
	void close() { ops++; ideal_file::close(); if (lie == 2) m_state = state_t::fail; }
	void flush() { ops++; ideal_file::flush(); if (lie == 2) m_state = state_t::fail; }
	void lock(stdex::stream::fpos_t, fsize_t) { ops++; locks++; m_state = lie == 2 ? state_t::fail : state_t::ok; }
	void unlock(stdex::stream::fpos_t, fsize_t) { ops++; locks--; m_state = lie == 2 ? state_t::fail : state_t::ok; }
	void truncate() { ops++; ideal_file::truncate(); if (lie == 2) m_state = state_t::fail; }
	stdex::stream::fpos_t seek(foff_t o, seek_t h) { ops++; auto r = ideal_file::seek(o, h); if (lie == 1) r++; if (lie == 2) m_state = state_t::fail; return r; }
	stdex::stream::fpos_t tell() const { return ideal_file::tell() + (lie == 1); }
	fsize_t size() const { return ideal_file::size() + (lie == 1); }
};
SX_CASE(same_files)
{
	odd f[3], ref; unsigned n = 1 + sx_choose(3, "files");
	sx_symbolic(ref.data, 4, "content"); ref.n = 4;
	basic_file* p[3]; for (unsigned k = 0; k < 3; k++) { p[k] = &f[k]; memcpy(f[k].data, ref.data, 4); f[k].n = 4; }
	diag_file d(p, n);
	for (unsigned k = 0, steps = sx_bound(2, 3); k < steps; k++) {
		uint8_t b[8], c[8];
		try {
			switch (sx_choose(8, "op")) {
			case 0: { size_t l = sx_choose(5, "len"); size_t r = d.read(b, l); sx_check(r == ref.read(c, l) && sx_memeq(b, c, r), "read: the first file's result"); break; }
			case 1: { size_t l = sx_choose(4, "len"); sx_symbolic(b, l, "written"); sx_check(d.write(b, l) == ref.write(b, l), "write: the first file's result"); break; }
			case 2: { size_t o = sx_choose(6, "pos"); sx_check(d.seek(o, seek_t::beg) == ref.seek(o, seek_t::beg), "seek: the first file's result"); break; }
			case 3: d.truncate(); ref.truncate(); break;
			case 4: d.flush(); ref.flush(); break;
			case 5: d.lock(0, 1); ref.lock(0, 1); break;
			case 6: d.unlock(0, 1); ref.unlock(0, 1); break;
			case 7: d.close(); ref.close(); break;
			}
			sx_check(d.state() == ref.state(), "the first file's state");
			sx_check(d.tell() == ref.tell() && d.size() == ref.size(), "the first file's position and size");
		} catch (const runtime_error&) { sx_fail("equal files raise no alarm"); }
		for (unsigned i = 0; i < n; i++) sx_check(f[i].n == ref.n && f[i].pos == ref.pos && f[i].locks == ref.locks && f[i].ops == ref.ops && sx_memeq(f[i].data, ref.data, ref.n), "every operation reaches every file once");
	}
	sx_cover("same");
}
SX_CASE(different)
{
	odd f[3]; unsigned n = 2 + sx_choose(2, "files"), w = sx_choose(n, "which");
	basic_file* p[3]; for (unsigned k = 0; k < 3; k++) { p[k] = &f[k]; if (k) memcpy(f[k].data, f[0].data, 4); else sx_symbolic(f[0].data, 4, "content"); f[k].n = 4; }
	unsigned lie = sx_choose(6, "lie"), op = sx_choose(10, "op");
	if (lie < 4) f[w].lie = lie;
	else if (lie == 4) sx_symbolic(f[w].data, 4, "other content");
	else f[w].n = sx_choose(4, "size");
	size_t pos = sx_choose(4, "start"); for (auto& x : f) x.pos = pos;
	diag_file d(p, n);
	uint8_t b[8] = {}; bool threw = false, differ = false;
	size_t l = sx_choose(6, "len");
	try {
		switch (op) {
		case 0: d.read(b, l); break;
		case 1: d.write(b, l); break;
		case 2: d.seek(l, seek_t::beg); break;
		case 3: d.truncate(); break;
		case 4: d.flush(); break;
		case 5: d.lock(0, 1); break;
		case 6: d.unlock(0, 1); break;
		case 7: d.close(); break;
		case 8: d.tell(); break;
		case 9: d.size(); break;
		}
	} catch (const runtime_error&) { threw = true; }
	if (lie == 1) differ = (op == 0 && l) || (op == 1 && l) || op == 2 || op == 8 || op == 9;
	else if (lie == 2) differ = op < 8;
	else if (lie == 3) differ = op == 0 && l;
	else if (lie == 4) { if (op == 0) { size_t r = min<size_t>(l, 4 - pos); bool e = sx_memeq(f[0].data + pos, f[1].data + pos, r) && (n < 3 || sx_memeq(f[0].data + pos, f[2].data + pos, r)); sx_check(threw == !e, "data that differ raise the alarm, equal ones do not"); if (threw) sx_cover("content differs"); return; } }
	else if (lie == 5) { size_t m = f[w].n; if (op == 0) { size_t have = m > pos ? m - pos : 0; differ = min<size_t>(l, 4 - pos) != min<size_t>(l, have); } else if (op == 9) differ = m != 4; else if (op == 3 || op == 1) differ = false; }
	sx_check(threw == differ, "the alarm is raised exactly on a difference");
	if (threw) sx_cover("alarm");
}
SX_CASE(none)
{
	diag_file d(nullptr, 0); uint8_t b[4] = {};
	sx_check(d.read(b, 2) == 0 && d.state() == state_t::fail, "reading nothing fails");
	sx_check(d.write(b, 2) == 0 && d.state() == state_t::fail, "writing nothing fails");
	sx_check(d.seek(0) == fpos_max && d.state() == state_t::fail, "seeking in nothing fails");
	d.flush(); sx_check(d.ok(), "flushing nothing works");
	d.lock(0, 1); sx_check(!d.ok(), "locking nothing fails");
	d.flush(); d.unlock(0, 1); sx_check(!d.ok(), "unlocking nothing fails");
	d.flush(); d.truncate(); sx_check(!d.ok(), "truncating nothing fails");
	sx_check(d.tell() == fpos_max && d.size() == fsize_max, "no position, no size");
	d.close(); sx_check(d.ok(), "closing nothing works");
	sx_cover("none");
}
