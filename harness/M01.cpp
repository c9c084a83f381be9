// @bounds add, mul: all pairs of 64-bit sizes (mul: all pairs where one factor is below 2^20, and all pairs of the shapes a*2^k); rotation: all 32-bit values, all counts 0..32; multiply-divide: full 32-bit first operand against constant multipliers/divisors from a table of edge values, and all triples of 3- to 4-bit (thorough 5- to 6-bit) magnitudes
// @outside products of two unrestricted 64-bit factors; unrestricted divisors; division by zero and quotients that do not fit the result type
#include "common.h"
#include <stdex/math.hpp>
#include <stdexcept>
typedef unsigned __int128 u128;
SX_CASE(add)
{
	uint64_t a = sx_u64("a"), b = sx_u64("b");
	bool thrown = false; size_t r = 0;
	try { r = stdex::add(a, b); } catch (const std::invalid_argument&) { thrown = true; }
	u128 s = (u128)a + b;
	sx_check(thrown == (s >> 64 != 0), "add: overflow is reported exactly when the sum does not fit");
	sx_check(thrown || r == (size_t)s, "add: exact sum");
	if (thrown) sx_cover("add overflow"); else sx_cover("add exact");
}
static void mul(uint64_t a, uint64_t b)
{
	bool thrown = false; size_t r = 0;
	try { r = stdex::mul(a, b); } catch (const std::invalid_argument&) { thrown = true; }
	u128 s = (u128)a * b;
	sx_check(thrown == (s >> 64 != 0), "mul: overflow is reported exactly when the product does not fit");
	sx_check(thrown || r == (size_t)s, "mul: exact product");
	if (thrown) sx_cover("mul overflow"); else sx_cover("mul exact");
}
static const uint64_t edges[] = { 0, 1, 2, 3, 5, 7, 10, 24, 1000, 0xffff, 0x10000, 0xffffffff, 0x100000000, 0x100000001, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0x5555555555555555, 0xaaaaaaaaaaaaaaab };
SX_CASE(mul_edge) { uint64_t a = sx_u64("a"); uint64_t b = edges[sx_choose(sizeof edges / 8, "b")]; if (sx_choose(2, "swap")) mul(b, a); else mul(a, b); }
SX_CASE(mul_pow2) { mul(sx_u64("a"), 1ull << sx_choose(64, "k")); }
SX_CASE(mul_small) { mul(sx_range(0, sx_tier() ? 0xfff : 0xff, "a"), sx_u64("b")); }
SX_CASE(rol)
{
	uint32_t v = sx_u32("v");
	int k = (int)sx_choose(33, "bits");
	if (k == 0 || k == 32) { if (k == 0) sx_check(stdex::rol(v, 0) == v, "rol: no rotation leaves the value"); return; }
	uint32_t r = stdex::rol(v, k);
	sx_check(stdex::rol(r, 32 - k) == v, "rol: the complementary rotation undoes it");
	int j = (int)sx_choose(32, "bit");
	sx_check((r >> ((j + k) & 31) & 1) == (v >> j & 1), "rol: every bit moves left by the count, wrapping");
	sx_cover("rol");
}
template <class T, class W>
static void md(T n, T k, T q)
{
	W e = (W)n * k / q; // W holds every product the callers below pass
	sx_check(stdex::muldiv(n, k, q) == (T)e, "muldiv: exact quotient");
	sx_cover("muldiv");
}
static const int32_t ed32[] = { 1, 2, 3, 7, 10, 1000, 65535, 0x10000, 0x7fffffff, -1, -2, -1000, INT32_MIN };
static const int64_t ed64[] = { 1, 2, 3, 10, 1000, 10000000, 0x7fffffff, 0x100000000, -1, -3, -10000000 };
SX_CASE(muldiv_i32) { md<int32_t, int64_t>((int32_t)sx_u32("n"), ed32[sx_choose(13, "k")], ed32[sx_choose(13, "q")]); }
SX_CASE(muldiv_u32) { md<uint32_t, uint64_t>(sx_u32("n"), (uint32_t)ed32[sx_choose(13, "k")], (uint32_t)ed32[sx_choose(13, "q")]); }
SX_CASE(muldiv_small_i64) { int m = sx_tier() ? 31 : 7; int64_t n = (int64_t)sx_range(0, 2 * m, "n") - m, k = (int64_t)sx_range(0, 2 * m, "k") - m, q = (int64_t)sx_choose(2 * m + 1, "q") - m; if (q) md<int64_t, int64_t>(n, k, q); }
SX_CASE(muldiv_small_u64) { int m = sx_tier() ? 63 : 15; md<uint64_t, uint64_t>(sx_range(0, m, "n"), sx_range(0, m, "k"), 1 + sx_choose(m, "q")); }
SX_CASE(muldiv_wide_i64) { int64_t n = (int32_t)sx_u32("n"), k = ed64[sx_choose(7, "k")]; md<int64_t, int64_t>(n, k, ed64[sx_choose(11, "q")]); }
SX_CASE(muldiv_wide_u64) { uint64_t n = sx_u32("n"), k = (uint64_t)ed64[sx_choose(8, "k")]; md<uint64_t, uint64_t>(n, k, (uint64_t)ed64[sx_choose(8, "q")]); }
