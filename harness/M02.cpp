// @bounds every value of every supported width, including all float and double bit patterns
// @outside big-endian hosts (the other branch of the macros is not compiled here)
#include "common.h"
#include <stdex/endian.hpp>
template <class T>
static void one(bool inplace)
{
	uint8_t b[8], r[8];
	sx_symbolic(b, sizeof(T), "value");
	T v; memcpy(&v, b, sizeof(T));
	T w;
	if (inplace) { w = v; stdex::byteswap(&w); } else { auto x = stdex::byteswap(v); memcpy(&w, &x, sizeof(T)); }
	memcpy(r, &w, sizeof(T));
	bool ok = true;
	for (size_t i = 0; i < sizeof(T); i++) ok &= r[i] == b[sizeof(T) - 1 - i];
	sx_check(ok, "byteswap reverses the bytes");
	T z;
	if (inplace) { z = w; stdex::byteswap(&z); } else { auto x = stdex::byteswap(w); memcpy(&z, &x, sizeof(T)); }
	sx_check(sx_memeq(&z, b, sizeof(T)), "byteswap twice is the identity");
	auto be = HE2BE(v); memcpy(r, &be, sizeof(T));
	ok = true;
	for (size_t i = 0; i < sizeof(T); i++) ok &= r[i] == b[sizeof(T) - 1 - i];
	sx_check(ok, "big-endian form has the most significant byte first");
	T bev; memcpy(&bev, &be, sizeof(T));
	auto back = BE2HE(bev);
	sx_check(sx_memeq(&back, b, sizeof(T)), "big-endian conversion is undone by its inverse");
	auto le = HE2LE(v); T lev; memcpy(&lev, &le, sizeof(T));
	sx_check(sx_memeq(&lev, b, sizeof(T)), "little-endian form has the least significant byte first");
	auto back2 = LE2HE(lev);
	sx_check(sx_memeq(&back2, b, sizeof(T)), "little-endian conversion is undone by its inverse");
	sx_cover("swapped");
}
#define C(n, T) SX_CASE(n) { one<T>(false); } SX_CASE(n##_inplace) { one<T>(true); }
C(u8, uint8_t) C(u16, uint16_t) C(u32, uint32_t) C(u64, uint64_t) C(i8, int8_t) C(ch, char) C(i16, int16_t) C(i32, int32_t) C(i64, int64_t) C(flt, float) C(dbl, double)
