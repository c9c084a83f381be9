// Development aid: the simplifying constructors against plain evaluation, over random terms.
#include "expr.h"
#include <cstdio>
#include <cstdlib>
#include <random>
int main(int argc, char** argv) {
	uint64_t rounds = argc > 1 ? strtoull(argv[1], 0, 10) : 20000; std::mt19937_64 R(argc > 2 ? atoi(argv[2]) : 1);
	struct T { E e; std::vector<u128> v; };
	const unsigned W[] = { 1, 8, 11, 16, 32, 64 };
	const int M = 6; uint64_t bad = 0, n = 0;
	for (uint64_t r = 0; r < rounds; r++) {
		std::vector<Model> ms(M); std::vector<T> p;
		for (int i = 0; i < 5; i++) {
			unsigned w = (unsigned[]){ 8, 8, 16, 32, 64 }[i]; E e = mkSym(w, "s", false); uint32_t id = (uint32_t)e->c;
			uint64_t lo = 0, hi = (uint64_t)maskw(w);
			if (R() & 1) { lo = R() & maskw(w); if (R() & 1) lo &= 255; hi = lo + (R() & (R() & 1 ? 127 : maskw(w))); if (hi > maskw(w) || hi < lo) hi = (uint64_t)maskw(w); g_symRange[e] = { lo, hi }; }
			T t{ e, {} };
			for (int m = 0; m < M; m++) { uint64_t x = m == 0 ? lo : m == 1 ? hi : hi - lo == ~0ull ? R() : lo + R() % (hi - lo + 1); ms[m].set(id, x); t.v.push_back(x); }
			p.push_back(t);
		}
		for (int k = 0; k < 40; k++) {
			const T a = p[R() % p.size()]; T t;
			auto other = [&](unsigned w) { // an operand of the same width
				if (R() % 3) { u128 c; switch (R() % 6) { case 0: c = R() & 7; break; case 1: c = (u128)1 << (R() % w); break; case 2: c = ~(u128)(R() & 1023); break; case 3: c = (uint64_t[]){ 3, 5, 10, 60, 100, 153, 1000, 1461, 3600, 86400, 146097 }[R() % 11]; break; case 4: c = 0 - (u128)(uint64_t[]){ 3, 5, 10, 60, 100, 153, 1000, 1461, 3600, 86400, 146097 }[R() % 11]; break; default: c = R(); } c &= maskw(w); return T{ mkConst(c, w), std::vector<u128>(M, c) }; }
				for (int i = 0; i < 10; i++) { auto& x = p[R() % p.size()]; if (x.e->w == w) return x; }
				return T{ mkConst(1, w), std::vector<u128>(M, 1) };
			};
			switch (R() % 8) {
			case 0: { unsigned w = W[R() % 6]; if (w < a.e->w) { unsigned lo = R() % (a.e->w - w + 1); if (R() & 1) lo = 0; t.e = mkExtract(a.e, lo, w); for (auto v : a.v) t.v.push_back((v >> lo) & maskw(w)); } else if (R() & 1) { t.e = mkZExt(a.e, w); t.v = a.v; } else { t.e = mkSExt(a.e, w); for (auto v : a.v) t.v.push_back((u128)sextw(v, a.e->w) & maskw(w)); } break; }
			case 1: { T b = other(a.e->w), c = p[R() % p.size()]; E d = mkExtract(c.e, 0, 1); t.e = mkITE(d, a.e, b.e); for (int m = 0; m < M; m++) t.v.push_back(c.v[m] & 1 ? a.v[m] : b.v[m]); break; }
			case 2: { T b = p[R() % p.size()]; if (a.e->w + b.e->w > 64) continue; t.e = mkConcat(a.e, b.e); for (int m = 0; m < M; m++) t.v.push_back(a.v[m] << b.e->w | b.v[m]); break; }
			case 3: { // x - c * (x / c) + d and relatives
				T b = other(a.e->w); if (!isC(b.e) || b.e->c < 2) continue; u128 d = R() % 3 ? 0 : R() & 7; unsigned w = a.e->w;
				E q = mkBin(O_UDIV, a.e, b.e); E s = mkBin(O_ADD, a.e, mkConst(d, w));
				t.e = R() & 1 ? mkBin(O_SUB, s, mkBin(O_MUL, q, b.e)) : mkBin(O_ADD, s, mkBin(O_MUL, q, mkConst(0 - b.e->c, w)));
				for (int m = 0; m < M; m++) t.v.push_back((a.v[m] + d - (a.v[m] / b.v[m]) * b.v[m]) & maskw(w)); break; }
			default: { T b = other(a.e->w); Op op = (Op)(O_ADD + R() % (O_SLE - O_ADD + 1)); if ((op >= O_UDIV && op <= O_SREM) && (!isC(b.e) || !b.e->c)) continue; if (op == O_SREM || op == O_SDIV) if (b.e->c == maskw(b.e->w)) continue;
				if ((op >= O_SHL && op <= O_ASHR)) { if (!isC(b.e)) continue; }
				bool sw = R() & 1 && !(op >= O_UDIV && op <= O_SREM) && !(op >= O_SHL && op <= O_ASHR);
				t.e = sw ? mkBin(op, b.e, a.e) : mkBin(op, a.e, b.e);
				for (int m = 0; m < M; m++) t.v.push_back(sw ? binEval(op, b.v[m], a.v[m], a.e->w) : binEval(op, a.v[m], b.v[m], a.e->w)); }
			}
			n++;
			for (int m = 0; m < M; m++) {
				u128 g = evalNoMemo(t.e, ms[m]);
				if (g != t.v[m]) { if (++bad < 5) printf("round %llu: %s = %llx, not %llx\n", (unsigned long long)r, exprStr(t.e, 8).c_str(), (unsigned long long)g, (unsigned long long)t.v[m]); break; }
			}
			if (bad) return 1;
			p.push_back(t);
		}
	}
	printf("%llu terms, %llu wrong\n", (unsigned long long)n, (unsigned long long)bad);
	return bad != 0;
}
