// @bounds platform names of 0..7 (thorough 0..9) arbitrary characters, the known ones in any letter case; every user number, user names of 0..3 arbitrary characters, users that are not listed, systems that do not tell
// @outside Windows and macOS variants
// @stub uname, geteuid, getpwuid: what the system would tell, arbitrary
#include "common.h"
#include <sys/utsname.h>
#include <pwd.h>
#include <unistd.h>
static struct utsname u_; static int ur_ = 0; static uid_t uid_ = 5; static struct passwd pw_; static bool have_ = false; static uid_t asked_ = 0;
extern "C" int uname(struct utsname* p) noexcept { if (ur_ < 0) return -1; *p = u_; return 0; }
extern "C" uid_t geteuid(void) noexcept { return uid_; }
extern "C" struct passwd* getpwuid(uid_t u) { asked_ = u; return have_ ? &pw_ : nullptr; }
#include <stdex/sys_info.hpp>
using namespace stdex;
static const struct { const char* n; platform_id id; } P[] = { { "aarch64", platform_id::aarch64 }, { "arm", platform_id::arm }, { "i386", platform_id::i386 }, { "x86_64", platform_id::x86_64 } };
static bool is(const char* s, const char* name) { size_t i = 0; for (; s[i] && name[i]; ++i) { char c = s[i]; if (c >= 'A' && c <= 'Z') c += 32; if (c != name[i]) return false; } return s[i] == name[i]; }
static platform_id want(const char* s) { for (auto& p : P) if (is(s, p.n)) return p.id; return platform_id::unknown; }
SX_CASE(names)
{
	size_t n = sx_choose(sx_bound(8, 10), "n"); char* s = new char[n + 1]; sx_symbolic(s, n, "name"); for (size_t i = 0; i < n; ++i) sx_assume(s[i] != 0); s[n] = 0;
	platform_id r = platform_from_name(s); sx_check(r == want(s), "platform of a name"); sx_cover(r == platform_id::unknown ? "unknown" : "known"); delete[] s;
}
SX_CASE(system)
{
	have_ = sx_choose(2, "listed"); uid_ = sx_u32("user"); static char name[4]; size_t n = sx_choose(4, "length"); sx_symbolic(name, n, "user name"); for (size_t i = 0; i < n; ++i) sx_assume(name[i] != 0); name[n] = 0;
	bool named = sx_choose(2, "named"); pw_.pw_name = named ? name : nullptr; ur_ = sx_choose(2, "told") ? 0 : -1;
	unsigned k = sx_choose(6, "machine"); strcpy(u_.machine, k < 4 ? P[k].n : k == 4 ? "riscv64" : ""); 
	sys_info_t i; sx_check(i.os_platform == (ur_ < 0 || k > 3 ? platform_id::unknown : P[k].id), "platform of the system"); sx_check(i.elevated == (uid_ == 0), "elevated"); sx_check(asked_ == uid_, "the effective user");
	sx_check(have_ && named ? i.username == name : i.username.empty(), "user"); sx_check(i.process_platform == platform_id::x86_64, "platform of the process"); sx_cover(have_ ? "user" : "no user");
}
