// @bounds windows at offset 0..3 of length 0..4 onto a file of 0..8 arbitrary bytes, every starting position, every history of 2 (thorough 3) operations (seek from start, cursor and end within and around the window, skip, read and write of 0..4 bytes, tell, lock); short transfers of the file
// @outside longer histories, files beyond 2^63 bytes, using the underlying file directly at the same time
#include "mock.h"
using namespace std;
using namespace stdex::stream;
struct locked_file : ideal_file {
	uint64_t lo = 0, ll = 0; unsigned locks = 0, unlocks = 0;
	virtual void lock(stdex::stream::fpos_t o, fsize_t l) { lo = o; ll = l; locks++; m_state = state_t::ok; }
	virtual void unlock(stdex::stream::fpos_t o, fsize_t l) { lo = o; ll = l; unlocks++; m_state = state_t::ok; }
};
SX_CASE(history)
{
	static const uint8_t N[] = { 0, 2, 4, 6, 8 }, S[] = { 0, 2, 3 };
	locked_file f; f.n = N[sx_choose(5, "n")]; sx_symbolic(f.data, f.n, "content");
	size_t start = S[sx_choose(3, "start")], len = sx_choose(5, "len");
	uint8_t ref[MOCK_MAX]; memcpy(ref, f.data, MOCK_MAX); size_t refn = f.n;
	file_window w(f, start, len);
	sx_check(w.size() == len, "the size is that of the window");
	size_t cur = 0;
	sx_check(w.seekbeg(0) == 0 && w.ok() && w.tell() == 0 && f.pos == start, "seeking to the start");
	cur = sx_choose(5, "pos"); sx_check(w.seekbeg(cur) == cur && w.ok(), "seek");
	for (unsigned k = 0, m = sx_bound(2, 3); k < m; k++) {
		uint8_t b[8]; memset(b, 0xee, 8);
		switch (sx_choose(7, "op")) {
		case 0: { size_t p = sx_choose(6, "pos"); sx_check(w.seekbeg(p) == p && w.ok(), "seek"); cur = p; break; }
		case 1: {
			int64_t d = (int64_t)sx_choose(5, "off") - 2; auto x = w.seekcur(d);
			if ((int64_t)cur + d < 0) { sx_check(x == fpos_max && !w.ok(), "seeking before the window is refused"); sx_cover("before"); }
			else { cur += d; sx_check(x == cur && w.ok(), "seek from the cursor"); }
			break;
		}
		case 2: {
			int64_t d = (int64_t)sx_choose(4, "off") - 2; auto x = w.seekend(d);
			if ((int64_t)len + d < 0) sx_check(x == fpos_max && !w.ok(), "seeking before the window is refused");
			else { cur = len + d; sx_check(x == cur && w.ok(), "seek from the end"); sx_cover("end"); }
			break;
		}
		case 3: { size_t a = sx_choose(4, "amount"); w.skip(a); cur += a; sx_check(w.ok(), "skip"); break; }
		case 4: {
			size_t l = sx_choose(5, "len"), lim = cur < len ? min(l, len - cur) : 0, have = start + cur < refn ? min(lim, refn - start - cur) : 0;
			size_t r = w.read(b, l);
			sx_check(r == have && sx_memeq(b, ref + start + cur, r) && b[r] == 0xee, "reads deliver the bytes inside the window");
			sx_check(w.state() == (r || !l ? state_t::ok : state_t::eof), "read: state");
			cur += r; if (lim < l && r) sx_cover("read stops at the end of the window");
			break;
		}
		case 5: {
			size_t l = 1 + sx_choose(4, "len"), lim = cur < len ? min(l, len - cur) : 0; sx_symbolic(b, l, "written");
			size_t r = w.write(b, l);
			sx_check(r == lim && w.state() == (lim ? state_t::ok : state_t::fail), "writes stay in the window");
			if (r) { memcpy(ref + start + cur, b, r); if (refn < start + cur + r) refn = start + cur + r; }
			cur += r; if (r < l && r) sx_cover("write stops at the end of the window");
			break;
		}
		case 6: {
			size_t o = sx_choose(6, "offset"), l = 2 * sx_choose(3, "len"); bool un = sx_choose(2, "unlock"); unsigned n = f.locks + f.unlocks;
			if (un) w.unlock(o, l); else w.lock(o, l);
			if (o < len) sx_check(f.locks + f.unlocks == n + 1 && w.ok() && f.lo == start + o && f.ll == min(l, len - o), "locking affects the window's bytes only");
			else sx_check(f.locks + f.unlocks == n && !w.ok(), "locking outside the window is refused");
			break;
		}
		}
		sx_check(w.tell() == (cur <= len ? cur : fpos_max), "tell gives the position in the window");
		sx_check(f.pos == start + cur, "the file is positioned accordingly");
		sx_check(f.n == refn && sx_memeq(f.data, ref, MOCK_MAX), "bytes change only where written");
	}
	w.truncate(); sx_check(!w.ok() && f.n == refn, "a window cannot be truncated");
}
// transfers of the file may be short
struct short_file : ideal_file {
	virtual size_t read(void* d, size_t l) { return ideal_file::read(d, l > 1 ? 1 + sx_choose((uint32_t)l, "source transfers") : l); }
	virtual size_t write(const void* d, size_t l) { size_t k = l ? sx_choose((uint32_t)l + 1, "sink accepted") : 0; ideal_file::write(d, k); if (k < l) m_state = state_t::fail; return k; }
};
SX_CASE(short_transfers)
{
	short_file f; f.n = sx_choose(7, "n"); sx_symbolic(f.data, f.n, "content");
	size_t start = sx_choose(3, "start"), len = sx_choose(5, "len"), cur = 0;
	uint8_t ref[MOCK_MAX]; memcpy(ref, f.data, MOCK_MAX); size_t refn = f.n;
	file_window w(f, start, len); w.seekbeg(0);
	for (unsigned k = 0; k < 2; k++) {
		uint8_t b[8]; size_t l = 1 + sx_choose(4, "len");
		if (sx_choose(2, "op")) {
			size_t r = w.read(b, l);
			sx_check(r <= l && cur + r <= len && sx_memeq(b, ref + start + cur, r) && w.ok() == (r > 0), "reads deliver the bytes inside the window"); cur += r;
		} else {
			sx_symbolic(b, l, "written"); size_t r = w.write(b, l);
			sx_check(r <= l && (r == 0 || cur + r <= len), "writes stay in the window");
			if (r) { memcpy(ref + start + cur, b, r); if (refn < start + cur + r) refn = start + cur + r; sx_cover("short"); }
			cur += r;
		}
		sx_check(f.n == refn && sx_memeq(f.data, ref, MOCK_MAX) && w.tell() == cur, "bytes change only where written, the cursor follows");
	}
	w.flush(); w.close();
}
