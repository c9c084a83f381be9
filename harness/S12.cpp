// @bounds transfers of 0..4 (thorough 0..5) arbitrary bytes over a handle or socket whose every system call moves any part, fails, or takes nothing; every history of 3 (thorough 4) file operations on files of 0..4 bytes; every history of 3 (thorough 4) copies, moves, assignments, closes of handles with closing and duplicating failing; every combination of opening modes
// @outside transfers beyond SSIZE_MAX; the kernel's own behaviour (replaced by a model that may do whatever POSIX allows here)
// @stub read, write, close, dup, open, lseek64, ftruncate64, fsync, lockf64, futimens, fstat, recv, send, socket: an in-memory file or pipe with every possible partial transfer and failure
#include "fakeos.h"
#include "mock.h"
using namespace std;
using namespace stdex::stream;
template <class S> static void reading()
{
	os = fake_os(); os.n = sx_choose(sx_bound(5, 6), "n"); sx_symbolic(os.data, os.n, "data"); os.errors = sx_choose(2, "errors");
	size_t got = 0;
	{
		S s(os.opened()); uint8_t b[16];
		for (unsigned k = 0; k < 2; k++) {
			size_t l = sx_choose(4, "len"); memset(b, 0xee, 16);
			size_t x = s.read(b, l);
			sx_check(x <= l && got + x <= os.n && sx_memeq(b, os.data + got, x) && b[x] == 0xee && os.pos == got + x, "exactly the bytes the system delivers");
			got += x;
			if (x) sx_check(s.ok(), "data: success");
			else if (os.failed) { sx_check(s.state() == state_t::fail, "an error is reported"); sx_cover("error"); }
			else if (l) { sx_check(s.state() == state_t::eof && got == os.n, "the end is reported at the end"); sx_cover("end"); }
			if (x < l && !os.failed) sx_check(got == os.n, "short only at the end or on error");
			if (os.failed) break;
		}
	}
	sx_check(!os.bad_use && !os.bad_close && os.all_closed() && os.closes[0] == 1, "the handle is used while open and closed once");
}
SX_CASE(read_handle) { reading<basic_sys>(); }
SX_CASE(read_socket) { reading<stdex::stream::socket>(); }
template <class S> static void writing()
{
	os = fake_os(); os.errors = sx_choose(2, "errors"); os.zeros = sx_choose(2, "zeros"); uint8_t d[16]; sx_symbolic(d, 16, "data");
	size_t put = 0;
	{
		S s(os.opened());
		for (unsigned k = 0; k < 2; k++) {
			size_t l = sx_choose(sx_bound(5, 6), "len"), x = s.write(d + put, l);
			sx_check(x <= l && os.nout == put + x && sx_memeq(os.out, d, os.nout), "the count is what the system took, in order"); put += x;
			sx_check(s.ok() == (x == l && !(os.failed && !l)), "all or failure");
			if (x < l) { sx_check(os.failed || os.stuck, "short on error only"); if (os.stuck) sx_cover("takes nothing"); else sx_cover("error"); break; }
			if (os.failed) break;
		}
		s.close(); sx_check(os.all_closed() && s.ok() && !s, "closed");
	}
	sx_check(!os.bad_use && !os.bad_close && os.closes[0] == 1, "the handle is closed once");
}
SX_CASE(write_handle) { writing<basic_sys>(); }
SX_CASE(write_socket) { writing<stdex::stream::socket>(); }
SX_CASE(flush_close)
{
	os = fake_os(); os.errors = true; os.close_fails = sx_choose(2, "close fails");
	{
		basic_sys s(os.opened()); s.flush(); sx_check(s.ok() == !os.failed && os.syncs == 1, "flush reports failure");
		s.close(); sx_check(s.ok() == !os.close_fails && !s, "close reports failure");
		sx_check(os.closes[0] == 1, "closed"); s.close();
	}
	sx_check(os.closes[0] == 1 && !os.bad_close, "closed only once"); if (os.close_fails) sx_cover("close fails");
}
// ownership of handles
struct fake_traits { static inline const int invalid_handle = -1; static void close(int h) { stdex::sys_object_traits::close(h); } static int duplicate(int h) { return stdex::sys_object_traits::duplicate(h); } };
template <class O> static void ownership(bool copies)
{
	os = fake_os(); os.close_fails = sx_choose(2, "close fails"); os.dup_fails = copies && sx_choose(2, "dup fails"); int made = 0;
	{
		O* a[2] = { new O(os.opened()), new O() };
		for (unsigned k = 0, m = sx_bound(3, 4); k < m; k++) {
			unsigned i = sx_choose(2, "which"), op = sx_choose(5, "op");
			try {
				switch (op) {
				case 0: if constexpr (is_copy_assignable_v<O>) { *a[i] = *a[1 - i]; sx_check(!*a[i] == !*a[1 - i] && (!*a[i] || a[i]->get() != a[1 - i]->get()), "a copy has a handle of its own"); } break;
				case 1: if (!os.close_fails || !*a[i]) { bool b = *a[1 - i]; *a[i] = std::move(*a[1 - i]); sx_check(!*a[1 - i] && (bool)*a[i] == b, "moving takes the handle"); } break; // a failure there ends the program
				case 2: a[i]->close(); sx_check(!*a[i], "closed"); break;
				case 3: { O t(std::move(*a[i])); sx_check(!*a[i], "moved"); *a[i] = std::move(t); break; }
				case 4: { *a[i] = static_cast<O&>(*a[i]); break; }
				}
			} catch (const system_error&) { sx_check(os.failed, "exceptions are failures"); sx_cover("threw"); os.failed = false; }
		}
		for (auto x : a) { try { x->close(); } catch (const system_error&) {} delete x; }
	}
	sx_check(!os.bad_close && os.all_closed(), "every handle is closed exactly once");
	for (int i = 0; i < os.next; i++) sx_check(os.closes[i] == 1, "once");
	(void)made; sx_cover("owned");
}
SX_CASE(handle_ownership) { ownership<stdex::sys_object>(true); }
SX_CASE(socket_moves)
{
	os = fake_os(); os.n = 2; int state = sx_choose(3, "state"); static const state_t S[] = { state_t::ok, state_t::eof, state_t::fail };
	{
		stdex::stream::socket a(os.opened(), S[state]), b(os.opened(), S[sx_choose(3, "other state")]); int h = a.get();
		if (sx_choose(2, "how")) { stdex::stream::socket c(std::move(a)); sx_check(c.get() == h && c.state() == S[state] && !a, "moving takes the handle and the state"); }
		else { b = std::move(a); sx_check(b.get() == h && b.state() == S[state] && !a && os.closes[1] == 1, "moving takes the handle and the state"); sx_cover("assigned"); }
		b = std::move(b);
	}
	sx_check(!os.bad_close && os.all_closed() && os.closes[0] == 1 && os.closes[1] == 1, "every socket is closed once");
	os = fake_os(); os.open_fails = sx_choose(2, "open fails"); { stdex::stream::socket s(1, 2, 3); sx_check(s.ok() == !os.open_fails && (bool)s == s.ok(), "failure to create a socket is reported"); }
	sx_check(os.all_closed() && !os.bad_close, "closed");
}
// files
SX_CASE(file_history)
{
	os = fake_os(); os.pipe = false; os.n = sx_choose(5, "n"); sx_symbolic(os.data, os.n, "content"); os.partial = false;
	ideal_file r; r.n = os.n; memcpy(r.data, os.data, os.n);
	{
		file f("f", mode_for_reading | mode_for_writing | mode_open_existing);
		sx_check(f.ok() && (os.flags & O_ACCMODE) == O_RDWR, "opened");
		for (unsigned k = 0, m = sx_bound(3, 4); k < m; k++) {
			uint8_t a[8], b[8];
			switch (sx_choose(6, "op")) {
			case 0: { size_t p = sx_choose(7, "pos"); sx_check(f.seekbeg(p) == r.seekbeg(p) && f.ok(), "seek"); break; }
			case 1: { int64_t d = (int64_t)sx_choose(3, "off") - 1; auto x = r.seekcur(d); sx_check(f.seekcur(d) == x && f.ok() == (x != fpos_max), "seek from the cursor"); break; }
			case 2: { int64_t d = (int64_t)sx_choose(3, "off") - 1; auto x = r.seekend(d); sx_check(f.seekend(d) == x && f.ok() == (x != fpos_max), "seek from the end"); break; }
			case 3: { size_t l = 2 * sx_choose(3, "len"), x = r.read(a, l), y = f.read(b, l); sx_check(x == y && sx_memeq(a, b, x) && f.state() == r.state(), "read"); break; }
			case 4: { size_t l = 1 + sx_choose(3, "len"); sx_symbolic(a, l, "written"); r.write(a, l); sx_check(f.write(a, l) == l && f.ok(), "write"); break; }
			case 5: r.truncate(); f.truncate(); sx_check(f.ok(), "truncate"); break;
			}
			sx_check(f.tell() == r.tell() && f.size() == r.size() && f.tell() == r.tell(), "position and size");
			sx_check(os.n == r.n && sx_memeq(os.data, r.data, r.n), "content");
		}
	}
	sx_check(!os.bad_use && !os.bad_close && os.all_closed(), "closed");
}
SX_CASE(file_open)
{
	os = fake_os(); os.pipe = false; os.n = 3; os.open_fails = sx_choose(2, "open fails");
	static const int D[] = { mode_open_existing, mode_truncate_existing, mode_preserve_existing, mode_create_new, mode_create }, F[] = { 0, O_TRUNC, O_CREAT, O_CREAT | O_EXCL, O_CREAT | O_TRUNC };
	static const int A[] = { mode_for_reading, mode_for_writing, mode_for_reading | mode_for_writing }, G[] = { O_RDONLY, O_WRONLY, O_RDWR };
	unsigned d = sx_choose(5, "disposition"), a = sx_choose(3, "access"); bool app = sx_choose(2, "append"), again = sx_choose(2, "again");
	{
		file f; if (again) { os.open_fails = false; f.open("g", mode_for_reading | mode_open_existing); os.open_fails = sx_choose(2, "open fails again"); }
		f.open("f", D[d] | A[a] | (app ? mode_append : 0));
		sx_check(f.ok() == !os.open_fails && (bool)f == f.ok(), "failure to open is reported");
		sx_check((os.flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_EXCL)) == (F[d] | G[a]), "the mode asked for");
		if (f.ok()) { sx_check(f.tell() == (app ? os.n : 0), "positioned at the start, or the end for appending"); sx_cover("opened"); } else sx_check(f.tell() == fpos_max, "no position");
		if (again) sx_check(os.closes[0] == 1, "reopening closes the previous file");
	}
	sx_check(!os.bad_close && os.all_closed(), "closed");
}
SX_CASE(file_lock_times)
{
	os = fake_os(); os.pipe = false; os.n = 4; os.lock_fails = sx_choose(2, "lock fails"); 
	file f("f", mode_for_reading | mode_open_existing); size_t p = sx_choose(3, "pos"); f.seekbeg(p);
	f.lock(2, 3); sx_check(f.ok() == !os.lock_fails && f.tell() == p, "lock reports failure and leaves the position"); if (f.ok()) sx_check(os.locked_at == 2 && os.locked_len == 3, "the range asked for");
	f.unlock(2, 3); sx_check(f.ok() == !os.lock_fails && f.tell() == p, "unlock likewise"); if (os.lock_fails) sx_cover("lock fails");
	static const int64_t T[] = { 0, 1, 1000000001, 1700000000123456789, -1, -1500000000 };
	int64_t ns = T[sx_choose(6, "time")]; time_point t{ chrono::nanoseconds(ns) };
	int64_t s = ns / 1000000000, rest = ns % 1000000000; if (rest < 0) { s--; rest += 1000000000; }
	f.set_atime(t); sx_check(os.at_s == s && os.at_ns == rest && os.mt_s == -1 && os.mt_ns == -1, "the access time is set"); f.set_mtime(t); sx_check(os.mt_s == s && os.mt_ns == rest, "the modification time is set");
	sx_check(f.atime() == chrono::time_point_cast<time_point::duration>(clock::from_time_t((time_t)s)) && f.mtime() == f.atime(), "the times are read back to the second");
	os.seek_fails = true; sx_check(f.seekbeg(1) == fpos_max && !f.ok() && f.tell() == fpos_max && f.size() == fsize_max, "failing to seek is reported");
	f.lock(0, 1); sx_check(!f.ok(), "and failing to lock"); f.truncate(); sx_check(!f.ok(), "and to truncate");
}
// a buffered handle and a cached file hand everything to the system
SX_CASE(buffered)
{
	os = fake_os(); uint8_t d[8]; sx_symbolic(d, 8, "data"); size_t put = 0;
	{ buffered_sys s(os.opened(), 2, 3); for (unsigned k = 0; k < 3; k++) { size_t l = 1 + sx_choose(2, "len"); sx_check(s.write(d + put, l) == l, "write"); put += l; } }
	sx_check(os.nout == put && sx_memeq(os.out, d, put) && os.all_closed() && !os.bad_use, "everything is written before closing"); sx_cover("buffered");
}
SX_CASE(cached)
{
	os = fake_os(); os.pipe = false; os.partial = false; os.n = 5; sx_symbolic(os.data, 5, "content"); uint8_t ref[64]; memcpy(ref, os.data, 64); size_t n = 5;
	{
		cached_file f("f", mode_for_reading | mode_for_writing | mode_open_existing, 4); sx_check(f.ok(), "opened");
		for (unsigned k = 0; k < 2; k++) { size_t p = sx_choose(7, "pos"), l = 1 + sx_choose(3, "len"); uint8_t w[4]; sx_symbolic(w, l, "written"); f.seekbeg(p); sx_check(f.write(w, l) == l && f.ok(), "write"); memcpy(ref + p, w, l); if (n < p + l) n = p + l; }
		uint8_t b[16]; f.seekbeg(0); sx_check(f.size() == n && f.read(b, 16) == n && sx_memeq(b, ref, n), "reads see the writes");
	}
	sx_check(os.n == n && sx_memeq(os.data, ref, n) && os.all_closed() && !os.bad_use, "everything is written before closing"); sx_cover("cached");
}
SX_CASE(cached_reopen)
{
	os = fake_os(); os.pipe = false; os.partial = false; os.n = 5; sx_symbolic(os.data, 5, "content"); uint8_t ref[64], b[16]; memcpy(ref, os.data, 64); size_t n = 5; bool trunc = sx_choose(2, "truncate"), app = sx_choose(2, "append"), reads = sx_choose(2, "reads"), fails;
	{
		cached_file f("f", mode_for_reading | mode_for_writing | mode_open_existing, 4); sx_check(f.ok() && f, "opened"); size_t p = sx_choose(7, "pos"); f.seekbeg(p);
		switch (sx_choose(4, "before")) {
		case 0: { uint8_t w[2]; sx_symbolic(w, 2, "written"); sx_check(f.write(w, 2) == 2, "write"); memcpy(ref + p, w, 2); if (n < p + 2) n = p + 2; break; }
		case 1: f.read(b, 16); f.read(b, 16); sx_check(f.state() == state_t::eof, "end"); break;
		case 2: f.read(b, 1); break;
		}
		os.open_fails = fails = sx_choose(2, "open fails");
		f.open("g", (reads ? mode_for_reading : 0) | mode_for_writing | (trunc ? mode_truncate_existing : mode_open_existing) | (app ? mode_append : 0));
		sx_check(f.ok() == !fails && (bool)f == !fails, "failure to reopen is reported"); sx_check(os.closes[0] == 1, "reopening closes the previous file");
		if (!fails) {
			sx_check((os.flags & O_ACCMODE) == O_RDWR, "a cache reads what it is to change in part"); if (trunc) n = 0, memset(ref, 0, 64);
			sx_check(os.n == n && sx_memeq(os.data, ref, n), "what was written before is in the previous file"); size_t at = app ? n : 0; sx_check(f.tell() == at && f.size() == n, "positioned anew");
			uint8_t w = sx_u8("again"); sx_check(f.write(&w, 1) == 1 && f.ok(), "write"); ref[at] = w; if (n < at + 1) n = at + 1; f.seekbeg(0); sx_check(f.read(b, 16) == n && sx_memeq(b, ref, n), "nothing of the previous file is left"); sx_cover("reopened");
		} else { sx_check(os.n == n && sx_memeq(os.data, ref, n), "what was written before is stored"); sx_cover("failed"); }
	}
	sx_check((fails || !os.bad_use) && !os.bad_close && os.all_closed(), "closed"); if (!fails) sx_check(os.n == n && sx_memeq(os.data, ref, n), "everything is written before closing");
}
// loading and saving a memory file
SX_CASE(load_save)
{
	os = fake_os(); os.pipe = false; os.n = sx_choose(5, "n"); sx_symbolic(os.data, os.n, "content"); os.errors = sx_choose(2, "errors"); os.max_partial = 2; size_t n = os.n; uint8_t ref[64]; memcpy(ref, os.data, 64);
	memory_file m; m.write("abc", 3); m.load("f", 0);
	if (m.ok()) sx_check(m.size() == n && sx_memeq(m.data(), ref, n) && m.tell() == 0, "loading gives the file's content"); else sx_check(os.failed, "failure to load is reported");
	sx_check(os.all_closed(), "closed");
	memory_file g; uint8_t w[3]; size_t k = sx_choose(4, "size"); sx_symbolic(w, k, "saved"); g.write(w, k); os.failed = false; os.pos = 0; os.trunc_fails = sx_choose(2, "truncating fails"); if (sx_choose(2, "read to the end before")) { uint8_t t; g.read(&t, 1); sx_check(g.state() == state_t::eof, "end"); }
	g.save("f", sx_choose(2, "over") ? mode_create : mode_preserve_existing);
	sx_check(g.ok() == !os.failed, "failure to save is reported"); if (g.ok()) { sx_check(os.n == k && sx_memeq(os.data, w, k), "saving stores the content"); sx_cover("saved"); }
	sx_check(os.all_closed() && !os.bad_use, "closed");
}
// what the system tells of a path
static int stat_result_; static unsigned stat_mode_; static const char* stat_path_; static unsigned stats_;
extern "C" int stat(const char* p, struct stat* s) noexcept { ++stats_; stat_path_ = p; if (stat_result_) { errno = ENOENT; return -1; } memset(s, 0, sizeof(*s)); s->st_mode = stat_mode_; return 0; }
SX_CASE(paths)
{
	stat_result_ = sx_choose(2, "missing") ? -1 : 0; stat_mode_ = sx_u32("mode"); static const char name[] = "some/path"; string str(name); bool s = sx_choose(2, "as a string"); stats_ = 0;
	sx_check((s ? file::exists(str) : file::exists(name)) == !stat_result_ && stats_ == 1 && !strcmp(stat_path_, name), "exists exactly when the system finds it");
	sx_check((s ? file::readonly(str) : file::readonly(name)) == (!stat_result_ && !(stat_mode_ & 0222)) && stats_ == 2 && !strcmp(stat_path_, name), "read-only when nobody may write"); sx_cover(stat_result_ ? "missing" : "found");
}
