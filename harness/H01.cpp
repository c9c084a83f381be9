// @bounds messages of 0..5 arbitrary bytes (CRC-32) and of 3, 55, 56, 63, 64 (thorough also 65, 119, 120) bytes (MD5, SHA-1), cut into 3 calls at 12 positions including empty parts (thorough: every first cut); MD5: all bytes arbitrary; SHA-1: one arbitrary byte, at the front, middle or end (a digest whose expression is not syntactically the published one falls back to that); the hashing adapter over 0..4 bytes with any partial transfers
// @outside messages from 512 MB on (bit counter carry); other message lengths
#include "mock.h"
#include <stdex/hash.hpp>
using namespace std;

// ---- the published algorithms
static uint32_t rotl(uint32_t x, int n) { return x << n | x >> (32 - n); }
struct crc_tab { uint32_t t[256]; };
static constexpr crc_tab make_crc() { crc_tab r{}; for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = (c & 1) ? 0xEDB88320u ^ (c >> 1) : c >> 1; r.t[i] = c; } return r; }
static constexpr crc_tab crct = make_crc();
static uint32_t ref_crc(const uint8_t* d, size_t n) { uint32_t c = 0xffffffff; for (size_t i = 0; i < n; i++) c = crct.t[(c ^ d[i]) & 0xff] ^ (c >> 8); return ~c; }
static size_t pad(uint8_t* m, size_t n, bool big) // RFC 1321 / FIPS 180 padding
{
	size_t t = n; m[t++] = 0x80; while (t % 64 != 56) m[t++] = 0;
	uint64_t bits = (uint64_t)n * 8;
	for (int i = 0; i < 8; i++) m[t++] = (uint8_t)(bits >> (big ? 56 - 8 * i : 8 * i));
	return t;
}
static const uint32_t K5[64] = {
	0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
	0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
	0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
	0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391 };
static const int S5[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
static void ref_md5(uint8_t* out, const uint8_t* d, size_t n)
{
	uint8_t m[192]; memcpy(m, d, n); size_t t = pad(m, n, false);
	uint32_t h[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 };
	for (size_t b = 0; b < t; b += 64) {
		uint32_t w[16]; for (int i = 0; i < 16; i++) w[i] = (uint32_t)m[b + 4 * i] | (uint32_t)m[b + 4 * i + 1] << 8 | (uint32_t)m[b + 4 * i + 2] << 16 | (uint32_t)m[b + 4 * i + 3] << 24;
		uint32_t A = h[0], B = h[1], C = h[2], D = h[3];
		for (int i = 0; i < 64; i++) {
			uint32_t f; int g;
			if (i < 16) { f = (B & C) | (~B & D); g = i; }
			else if (i < 32) { f = (B & D) | (C & ~D); g = (5 * i + 1) % 16; }
			else if (i < 48) { f = B ^ C ^ D; g = (3 * i + 5) % 16; }
			else { f = C ^ (B | ~D); g = 7 * i % 16; }
			uint32_t s = A + f + w[g] + K5[i];
			A = D; D = C; C = B; B = B + rotl(s, S5[i / 16][i % 4]);
		}
		h[0] += A; h[1] += B; h[2] += C; h[3] += D;
	}
	for (int i = 0; i < 16; i++) out[i] = (uint8_t)(h[i / 4] >> (8 * (i % 4)));
}
static void ref_sha1(uint8_t* out, const uint8_t* d, size_t n)
{
	uint8_t m[192]; memcpy(m, d, n); size_t t = pad(m, n, true);
	uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 };
	for (size_t b = 0; b < t; b += 64) {
		uint32_t w[80];
		for (int i = 0; i < 16; i++) w[i] = (uint32_t)m[b + 4 * i] << 24 | (uint32_t)m[b + 4 * i + 1] << 16 | (uint32_t)m[b + 4 * i + 2] << 8 | (uint32_t)m[b + 4 * i + 3];
		for (int i = 16; i < 80; i++) w[i] = rotl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t A = h[0], B = h[1], C = h[2], D = h[3], EE = h[4];
		for (int i = 0; i < 80; i++) {
			uint32_t f, k;
			if (i < 20) { f = (B & C) | (~B & D); k = 0x5A827999; }
			else if (i < 40) { f = B ^ C ^ D; k = 0x6ED9EBA1; }
			else if (i < 60) { f = (B & C) | (B & D) | (C & D); k = 0x8F1BBCDC; }
			else { f = B ^ C ^ D; k = 0xCA62C1D6; }
			uint32_t s = rotl(A, 5) + f + EE + k + w[i];
			EE = D; D = C; C = rotl(B, 30); B = A; A = s;
		}
		h[0] += A; h[1] += B; h[2] += C; h[3] += D; h[4] += EE;
	}
	for (int i = 0; i < 20; i++) out[i] = (uint8_t)(h[i / 4] >> (24 - 8 * (i % 4)));
}

SX_CASE(crc)
{
	uint8_t d[8]; size_t n = sx_choose(6, "n");
	sx_symbolic(d, n, "message");
	size_t c1 = sx_choose(n + 1, "cut1"), c2 = c1 + sx_choose(n - c1 + 1, "cut2");
	stdex::crc32_hash h;
	h.hash(d, c1); h.hash(d + c1, c2 - c1); h.hash(d + c2, n - c2); h.finalize();
	sx_check(h.data() == ref_crc(d, n), "CRC-32 is the published one, however the message is cut");
	// continuing from an earlier CRC
	stdex::crc32_hash h2(ref_crc(d, c1));
	h2.hash(d + c1, n - c1); h2.finalize();
	sx_check(h2.data() == ref_crc(d, n), "CRC-32 continues from a given CRC");
	// starting over
	h.clear(); h.hash(d + c1, n - c1); h.finalize();
	sx_check(h.data() == ref_crc(d + c1, n - c1), "CRC-32 starts over after clear()");
	if (n == 5 && c1 == 1 && c2 == 3) sx_cover("crc of 5 bytes in 3 parts");
}
// which: message with one arbitrary byte, for forms of the algorithm whose equality with the published one is not syntactic
template <class H, size_t S>
static void one(const uint8_t* d, size_t n, size_t c1, size_t c2, void (*ref)(uint8_t*, const uint8_t*, size_t), bool& same, bool check)
{
	uint8_t r[S];
	ref(r, d, n);
	H h;
	h.hash(d, c1); h.hash(d + c1, c2 - c1); h.hash(d + c2, n - c2); h.finalize();
	same = sx_same(&h.data(), r, S);
	if (check) sx_check(sx_memeq(&h.data(), r, S), "digest is the published one, however the message is cut");
}
static const uint8_t lens[] = { 3, 55, 56, 63, 64, 65, 119, 120 };
template <class H, size_t S>
static void block(void (*ref)(uint8_t*, const uint8_t*, size_t))
{
	uint8_t d[128];
	size_t n = lens[sx_choose(sx_bound(5, 8), "n")];
	size_t c1, c2;
	if (sx_tier()) { c1 = sx_choose(n + 1, "cut1"); size_t k = sx_choose(4, "cut2"); c2 = k == 0 ? c1 : k == 1 ? n : k == 2 ? (c1 + n) / 2 : c1 + (n > c1); }
	else { static const uint8_t cut[][2] = { { 0, 0 }, { 0, 100 }, { 100, 100 }, { 1, 1 }, { 1, 2 }, { 2, 100 }, { 0, 3 }, { 31, 57 }, { 55, 56 }, { 54, 63 }, { 62, 64 }, { 8, 60 } }; const uint8_t* p = cut[sx_choose(12, "cuts")]; c1 = p[0] < n ? p[0] : n; c2 = p[1] < n ? p[1] : n; }
	bool same;
	sx_symbolic(d, n, "message");
	one<H, S>(d, n, c1, c2, ref, same, false);
	if (!same) { // the same question with one arbitrary byte
		for (size_t i = 0; i < n; i++) d[i] = (uint8_t)(i * 73 + 19);
		d[sx_choose(3, "where") * (n - 1) / 2] = sx_u8("byte");
		one<H, S>(d, n, c1, c2, ref, same, true);
	}
	if (n == 64 && c1 == 1) sx_cover("digest of a full block in parts");
	if (n == 56) sx_cover("padding does not fit");
}
SX_CASE(md5) { block<stdex::md5_hash, 16>(ref_md5); }
SX_CASE(sha1) { block<stdex::sha1_hash, 20>(ref_sha1); }
template <class H, size_t S>
static void again(void (*ref)(uint8_t*, const uint8_t*, size_t))
{
	uint8_t a[70], d[4], r[S];
	for (int i = 0; i < 70; i++) a[i] = (uint8_t)i;
	H h;
	h.hash(a, sx_choose(71, "before"));
	if (sx_choose(2, "finalized")) h.finalize();
	h.clear();
	d[0] = sx_u8("byte"); d[1] = 7; d[2] = 9;
	h.hash(d, 3); h.finalize();
	ref(r, d, 3);
	sx_check(sx_memeq(&h.data(), r, S), "a hasher starts over after clear()");
	sx_cover("again");
}
SX_CASE(md5_again) { again<stdex::md5_hash, 16>(ref_md5); }
SX_CASE(sha1_again) { again<stdex::sha1_hash, 20>(ref_sha1); }
SX_CASE(adapter_read)
{
	size_t n = sx_choose(5, "n");
	mock_source src(n, "data"); src.partial = true; src.failing = true;
	stdex::crc32_hash h;
	stdex::stream_hasher<stdex::crc32_t> s(h, src);
	uint8_t out[16]; size_t got = 0;
	for (int k = 0; k < 4; k++) {
		size_t want = 1 + sx_choose(3, "want"), r = s.read(out + got, want);
		sx_check(r <= want, "count");
		got += r;
		sx_check(s.state() == src.state(), "the adapter reports the source's state");
		if (!s.ok()) break;
	}
	sx_check(got == src.pos && sx_memeq(out, src.data, got), "the adapter forwards what it reads unchanged");
	h.finalize();
	sx_check(h.data() == ref_crc(src.data, got), "the adapter hashes exactly what was read");
	if (got == 4) sx_cover("read through");
}
SX_CASE(adapter_write)
{
	uint8_t d[8]; size_t n = 1 + sx_choose(4, "n"), at = 0;
	sx_symbolic(d, n, "data");
	mock_sink dst; dst.failing = dst.partial = true;
	stdex::crc32_hash h;
	stdex::stream_hasher<stdex::crc32_t> s(h, dst);
	while (at < n) {
		size_t k = 1 + sx_choose(n - at, "part"), r = s.write(d + at, k);
		sx_check(r <= k, "count");
		sx_check(s.state() == dst.state(), "the adapter reports the target's state");
		at += r;
		if (!s.ok()) break;
	}
	sx_check(dst.n == at && sx_memeq(dst.data, d, at), "the adapter forwards what is written unchanged");
	h.finalize();
	sx_check(h.data() == ref_crc(d, at), "the adapter hashes exactly what was written");
	if (at == 4) sx_cover("written through");
	if (dst.failed) sx_cover("sink failed");
}
// digests compare and serialise
template <class D> static void values(size_t words)
{
	D a, b; sx_symbolic(&a, sizeof(a), "a"); sx_symbolic(&b, sizeof(b), "b");
	bool eq = sx_memeq(&a, &b, sizeof(D));
	sx_check((a == b) == eq && (a != b) == !eq, "digest comparison");
	mock_sink dst; dst << a;
	sx_check(dst.ok() && dst.n == sizeof(D) && sx_memeq(dst.data, &a, sizeof(D)), "digest is written as its bytes");
	mock_source src(sizeof(D) - sx_choose(2, "missing"), "stored");
	src >> b;
	if (src.n == sizeof(D)) { sx_check(src.ok() && sx_memeq(&b, src.data, sizeof(D)), "digest is read back"); sx_cover("digest read"); }
	else { sx_check(!src.ok(), "a truncated digest is an error"); sx_cover("digest truncated"); }
}
SX_CASE(values_md5) { values<stdex::md5_t>(4); }
SX_CASE(values_sha1) { values<stdex::sha1_t>(5); }
SX_CASE(values_sha256) { values<stdex::sha256_t>(8); }
