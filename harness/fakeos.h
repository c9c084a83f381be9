#pragma once
// Stand-ins for the system calls stdex uses: descriptors of an in-memory file or of a pipe whose peer transfers
// as much as the checker decides. Nothing real is ever touched.
#include "common.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
struct fake_os {
	uint8_t data[64]; size_t n = 0, pos = 0;         // what reads deliver / writes change
	bool pipe = true;                                // pipe: reads consume data[pos..n), writes go to out
	uint8_t out[64]; size_t nout = 0;
	bool partial = true, errors = false, zeros = false; unsigned max_partial = 1000;
	bool failed = false;                             // an error was returned
	bool stuck = false;                              // a write took nothing
	bool close_fails = false, open_fails = false, seek_fails = false, trunc_fails = false, lock_fails = false, dup_fails = false;
	int open_count[8] = {}, closes[8] = {}; int next = 0; bool bad_close = false, bad_use = false;
	unsigned syncs = 0; int flags = 0; long long locked_at = -1, locked_len = 0, unlocked_at = -1;
	long long at_s = -1, at_ns = -1, mt_s = -1, mt_ns = -1;
	int opened() { int h = next++; sx_check(next <= 8, "harness: too many descriptors"); open_count[h]++; return 1000 + h; }
	bool valid(int h) { bool v = h >= 1000 && h < 1000 + next && open_count[h - 1000] == 1; if (!v) bad_use = true; return v; }
	bool all_closed() { for (int i = 0; i < next; i++) if (open_count[i]) return false; return true; }
};
static fake_os os;
static ssize_t os_read(int h, void* d, size_t l)
{
	if (!os.valid(h)) { errno = EBADF; return -1; }
	if (os.errors && sx_choose(2, "read fails")) { os.failed = true; errno = EIO; return -1; }
	size_t k = os.pos < os.n ? os.n - os.pos : 0; if (k > l) k = l;
	if (os.partial && os.max_partial && k > 1) { size_t kk = 1 + sx_choose((uint32_t)k, "read transfers"); if (kk < k) os.max_partial--; k = kk; }
	memcpy(d, os.data + os.pos, k); os.pos += k;
	return (ssize_t)k;
}
static ssize_t os_write(int h, const void* d, size_t l)
{
	if (!os.valid(h)) { errno = EBADF; return -1; }
	if (os.errors && sx_choose(2, "write fails")) { os.failed = true; errno = EIO; return -1; }
	if (os.stuck) return 0;
	if (os.zeros && l && sx_choose(2, "write takes nothing")) { os.stuck = true; return 0; }
	size_t k = l;
	if (os.partial && os.max_partial && k > 1) { size_t kk = 1 + sx_choose((uint32_t)k, "write transfers"); if (kk < k) os.max_partial--; k = kk; }
	if (os.pipe) { sx_check(os.nout + k <= 64, "harness: pipe too small"); memcpy(os.out + os.nout, d, k); os.nout += k; }
	else { sx_check(os.pos + k <= 64, "harness: file too small"); if (k) { if (os.pos > os.n) memset(os.data + os.n, 0, os.pos - os.n); memcpy(os.data + os.pos, d, k); os.pos += k; if (os.pos > os.n) os.n = os.pos; } }
	return (ssize_t)k;
}
static int os_close(int h)
{
	if (h < 1000 || h >= 1000 + os.next || os.open_count[h - 1000] != 1) { os.bad_close = true; errno = EBADF; return -1; }
	os.open_count[h - 1000]--; os.closes[h - 1000]++;
	if (os.close_fails) { os.failed = true; errno = EIO; return -1; }
	return 0;
}
static off64_t os_lseek(int h, off64_t o, int how)
{
	if (!os.valid(h)) { errno = EBADF; return -1; }
	if (os.seek_fails) { errno = ESPIPE; return -1; }
	off64_t p = (how == SEEK_SET ? 0 : how == SEEK_CUR ? (off64_t)os.pos : (off64_t)os.n) + o;
	if (p < 0) { errno = EINVAL; return -1; }
	os.pos = (size_t)p; return p;
}
static int os_lockf(int h, int cmd, off64_t l)
{
	if (!os.valid(h) || os.lock_fails) { errno = EBADF; return -1; }
	if (cmd == F_LOCK) { os.locked_at = (long long)os.pos; os.locked_len = l; } else os.unlocked_at = (long long)os.pos;
	return 0;
}
static int os_futimens(int h, const timespec* t)
{
	if (!os.valid(h)) { errno = EBADF; return -1; }
	if (t[0].tv_nsec != UTIME_OMIT) { os.at_s = t[0].tv_sec; os.at_ns = t[0].tv_nsec; }
	if (t[1].tv_nsec != UTIME_OMIT) { os.mt_s = t[1].tv_sec; os.mt_ns = t[1].tv_nsec; }
	for (int i = 0; i < 2; i++) if (t[i].tv_nsec != UTIME_OMIT && (t[i].tv_nsec < 0 || t[i].tv_nsec > 999999999)) { errno = EINVAL; return -1; }
	return 0;
}
extern "C" {
ssize_t sx_os_read(int h, void* d, size_t l) { return os_read(h, d, l); }
ssize_t sx_os_write(int h, const void* d, size_t l) { return os_write(h, d, l); }
int sx_os_close(int h) { return os_close(h); }
int sx_os_dup(int h) { if (!os.valid(h) || os.dup_fails) { os.failed = true; errno = EMFILE; return -1; } return os.opened(); }
int sx_os_open(const char*, int flags, int) { os.flags = flags; if (os.open_fails) { errno = ENOENT; return -1; } os.pos = 0; if (flags & O_TRUNC) os.n = 0; return os.opened(); }
off64_t sx_os_lseek(int h, off64_t o, int how) { return os_lseek(h, o, how); }
int sx_os_ftruncate(int h, off64_t l) { if (!os.valid(h)) { errno = EBADF; return -1; } if (os.trunc_fails) { errno = EIO; os.failed = true; return -1; } if (os.n < (size_t)l) memset(os.data + os.n, 0, l - os.n); os.n = (size_t)l; return 0; }
int sx_os_fsync(int h) { if (!os.valid(h)) { errno = EBADF; return -1; } os.syncs++; if (os.errors && sx_choose(2, "sync fails")) { os.failed = true; return -1; } return 0; }
int sx_os_lockf(int h, int cmd, off64_t l) { return os_lockf(h, cmd, l); }
int sx_os_futimens(int h, const timespec* t) { return os_futimens(h, t); }
ssize_t sx_os_recv(int h, void* d, size_t l, int) { return os_read(h, d, l); }
ssize_t sx_os_send(int h, const void* d, size_t l, int) { return os_write(h, d, l); }
int sx_os_socket(int, int, int) { if (os.open_fails) { errno = EMFILE; return -1; } return os.opened(); }
int sx_os_fstat(int h, struct stat* s) { if (!os.valid(h)) { errno = EBADF; return -1; } memset(s, 0, sizeof(*s)); s->st_atime = (time_t)os.at_s; s->st_mtime = (time_t)os.mt_s; return 0; }
}
// from here on, in stdex, these names mean the stand-ins
extern "C" {
ssize_t read(int, void*, size_t) __asm__("sx_os_read");
ssize_t write(int, const void*, size_t) __asm__("sx_os_write");
int close(int) __asm__("sx_os_close");
int dup(int) noexcept __asm__("sx_os_dup");
int open(const char*, int, ...) __asm__("sx_os_open");
off64_t lseek64(int, off64_t, int) noexcept __asm__("sx_os_lseek");
int ftruncate64(int, off64_t) noexcept __asm__("sx_os_ftruncate");
int fsync(int) __asm__("sx_os_fsync");
int lockf64(int, int, off64_t) __asm__("sx_os_lockf");
int futimens(int, const timespec*) noexcept __asm__("sx_os_futimens");
ssize_t recv(int, void*, size_t, int) __asm__("sx_os_recv");
ssize_t send(int, const void*, size_t, int) __asm__("sx_os_send");
int socket(int, int, int) noexcept __asm__("sx_os_socket");
int fstat(int, struct stat*) noexcept __asm__("sx_os_fstat");
}
