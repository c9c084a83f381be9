#include "expr.h"
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <cstdlib>

std::vector<SymInfo> g_syms;
uint64_t g_evgen = 1;
uint64_t g_nexpr = 0;

namespace {
struct KeyHash {
	size_t operator()(const Expr* e) const {
		uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
		auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
		mix((uint64_t)e->c); mix((uint64_t)(e->c >> 64));
		for (int i = 0; i < 3; i++) mix(e->a[i] ? e->a[i]->id + 1 : 0);
		return h;
	}
};
struct KeyEq {
	bool operator()(const Expr* x, const Expr* y) const {
		return x->op == y->op && x->w == y->w && x->c == y->c && x->a[0] == y->a[0] && x->a[1] == y->a[1] && x->a[2] == y->a[2];
	}
};
std::unordered_set<const Expr*, KeyHash, KeyEq> g_table;

struct SupCmp { bool operator()(const Support* a, const Support* b) const { return *a < *b; } };
std::set<const Support*, SupCmp> g_sups;
const Support* internSup(Support&& s) {
	auto it = g_sups.find(&s);
	if (it != g_sups.end()) return *it;
	auto* p = new Support(std::move(s));
	g_sups.insert(p);
	return p;
}
const Support* emptySup() { static const Support* p = internSup(Support()); return p; }
struct PairHash { size_t operator()(const std::pair<const Support*, const Support*>& p) const { return (size_t)p.first * 31 + (size_t)p.second * 17; } };
std::unordered_map<std::pair<const Support*, const Support*>, const Support*, PairHash> g_supU;
const Support* unionSup(const Support* a, const Support* b) {
	if (a == b || b->empty()) return a;
	if (a->empty()) return b;
	if (a > b) std::swap(a, b);
	auto it = g_supU.find({ a, b });
	if (it != g_supU.end()) return it->second;
	Support s; s.reserve(a->size() + b->size());
	std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(s));
	auto* r = internSup(std::move(s));
	g_supU[{ a, b }] = r;
	return r;
}

std::vector<std::vector<u128>> g_tabs;
std::unordered_map<std::string, uint32_t> g_tabIdx;

// Expressions this deep (hash functions) are not taken apart any further: that would multiply them.
static const unsigned TALL = 24;
E node(Op op, unsigned w, u128 c, E a0 = nullptr, E a1 = nullptr, E a2 = nullptr) {
	Expr k; k.op = op; k.w = w; k.c = c; k.a[0] = a0; k.a[1] = a1; k.a[2] = a2;
	auto it = g_table.find(&k);
	if (it != g_table.end()) return *it;
	auto* e = new Expr(k);
	e->id = (uint32_t)++g_nexpr;
	e->uninit = false;
	if (op == O_SYM) {
		e->sup = internSup(Support{ (uint32_t)c });
		e->uninit = g_syms[(size_t)c].uninit;
	} else {
		e->sup = emptySup();
		for (int i = 0; i < 3; i++) if (k.a[i]) { e->sup = unionSup(e->sup, k.a[i]->sup); e->uninit |= k.a[i]->uninit; if (k.a[i]->h >= e->h) e->h = k.a[i]->h < 60000 ? k.a[i]->h + 1 : 60000; }
	}
	g_table.insert(e);
	return e;
}
// 1-bit result: fold through the exhaustive truth set when only one byte is involved.
E boolNode(Op op, u128 c, E a0, E a1 = nullptr, E a2 = nullptr) {
	E e = node(op, 1, c, a0, a1, a2);
	if (e->sup->size() == 1) {
		const Set256* t = truthSet(e);
		if (t) {
			unsigned n = 1u << g_syms[e->sup->front()].w;
			size_t k = t->count();
			if (k == 0) return mkConst(0, 1);
			if (k == n) return mkConst(1, 1);
		}
	}
	return e;
}
u128 knownZero(E e, int depth = 4) {
	switch (e->op) {
	case O_CONST: return ~e->c & maskw(e->w);
	case O_CONCAT: {
		unsigned lw = e->a[1]->w;
		return (knownZero(e->a[0], depth) << lw) | knownZero(e->a[1], depth);
	}
	case O_ITE: if (!depth) return 0; return knownZero(e->a[1], depth - 1) & knownZero(e->a[2], depth - 1);
	case O_AND: if (!depth) return 0; return knownZero(e->a[0], depth - 1) | knownZero(e->a[1], depth - 1);
	case O_OR: case O_XOR: if (!depth) return 0; return knownZero(e->a[0], depth - 1) & knownZero(e->a[1], depth - 1);
	case O_UREM: if (isC(e->a[1]) && e->a[1]->c) { u128 m = e->a[1]->c - 1, r = 0; while (m) { r = (r << 1) | 1; m >>= 1; } return ~r & maskw(e->w); } return 0;
	case O_TAB: { u128 o = 0; for (auto v : tabOf(e)) o |= v; return ~o & maskw(e->w); }
	case O_UDIV: if (isC(e->a[1]) && e->a[1]->c && depth) { // quotient no larger than dividend
			u128 kz = knownZero(e->a[0], depth - 1); u128 m = maskw(e->w), top = 0; for (int i = e->w - 1; i >= 0 && (kz >> i & 1); i--) top |= (u128)1 << i; return top & m; } return 0;
	case O_ADD: case O_MUL: {
		if (!depth) return 0;
		// bound by magnitude
		auto lead = [&](E x) { u128 kz = knownZero(x, depth - 1); unsigned n = 0; for (int i = x->w - 1; i >= 0 && (kz >> i & 1); i--) n++; return (unsigned)x->w - n; };
		unsigned x = lead(e->a[0]), y = lead(e->a[1]), r = e->op == O_ADD ? std::max(x, y) + 1 : x + y;
		if (r >= e->w) return 0;
		return maskw(e->w) & ~maskw(r);
	}
	default: return 0;
	}
}
unsigned leadZeros(E e) {
	u128 kz = knownZero(e);
	unsigned n = 0;
	for (int i = e->w - 1; i >= 0 && (kz >> i & 1); i--) n++;
	return n;
}
void pieces(E e, std::vector<E>& out) {
	while (e->op == O_CONCAT) { pieces(e->a[0], out); e = e->a[1]; }
	out.push_back(e);
}
E concatAll(const std::vector<E>& p) {
	E r = p.back();
	for (int i = (int)p.size() - 2; i >= 0; i--) r = mkConcat(p[i], r);
	return r;
}
unsigned runs(u128 c, unsigned w) {
	unsigned n = 1;
	for (unsigned i = 1; i < w; i++) if ((c >> i & 1) != (c >> (i - 1) & 1)) n++;
	return n;
}
bool comm(Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ; }
}

// Intervals that hold wherever a term can occur (ranges of symbols come from sx_range, whose constraint is on every path using them).
std::unordered_map<E, std::pair<u128, u128>> g_symRange;
struct Rng { u128 lo, hi; };
static Rng rngOf(E e);
static Rng rng(E e) {
	u128 m = maskw(e->w);
	if (e->w > 64) return { 0, m };
	if (e->op == O_CONST) return { e->c, e->c };
	if (e->h > 200) return { 0, m };
	if (!e->rk) { Rng r = rngOf(e); e->rlo = (uint64_t)r.lo; e->rhi = (uint64_t)r.hi; e->rk = true; }
	return { e->rlo, e->rhi };
}
static Rng rngOf(E e) {
	u128 m = maskw(e->w); Rng full{ 0, m };
	switch (e->op) {
	case O_SYM: { auto it = g_symRange.find(e); if (it == g_symRange.end()) return full; return { it->second.first, it->second.second }; }
	case O_CONCAT: { Rng a = rng(e->a[0]), b = rng(e->a[1]); unsigned n = e->a[1]->w; return { a.lo << n | b.lo, a.hi << n | b.hi }; }
	case O_ADD: {
		Rng a = rng(e->a[0]), b = rng(e->a[1]);
		if (a.hi + b.hi <= m) return { a.lo + b.lo, a.hi + b.hi };
		if (a.lo + b.lo > m) return { a.lo + b.lo - m - 1, a.hi + b.hi - m - 1 };
		return full;
	}
	case O_SUB: { Rng a = rng(e->a[0]), b = rng(e->a[1]); if (a.lo >= b.hi) return { a.lo - b.hi, a.hi - b.lo }; return full; }
	case O_MUL: { Rng a = rng(e->a[0]), b = rng(e->a[1]); if (e->w <= 60 && a.hi * b.hi <= m) return { a.lo * b.lo, a.hi * b.hi }; if (e->w <= 64 && (!b.hi || a.hi <= m / b.hi)) return { a.lo * b.lo, a.hi * b.hi }; return full; }
	case O_UDIV: if (isC(e->a[1]) && e->a[1]->c) { Rng a = rng(e->a[0]); return { a.lo / e->a[1]->c, a.hi / e->a[1]->c }; } return full;
	case O_UREM: if (isC(e->a[1]) && e->a[1]->c) { Rng a = rng(e->a[0]); u128 c = e->a[1]->c; if (a.lo / c == a.hi / c) return { a.lo % c, a.hi % c }; return { 0, c - 1 }; } return full;
	case O_ITE: { Rng a = rng(e->a[1]), b = rng(e->a[2]); return { std::min(a.lo, b.lo), std::max(a.hi, b.hi) }; }
	case O_EXTRACT: { Rng a = rng(e->a[0]); unsigned n = (unsigned)e->c; if (e->a[0]->w <= 64 && (a.hi >> n) <= m) return { a.lo >> n, a.hi >> n }; return full; }
	case O_SEXT: { Rng a = rng(e->a[0]); if (a.hi <= maskw(e->a[0]->w - 1)) return a; return full; }
	case O_TAB: { u128 lo = m, hi = 0; for (auto v : tabOf(e)) { lo = std::min(lo, v); hi = std::max(hi, v); } return { lo, hi }; }
	case O_AND: { Rng a = rng(e->a[0]), b = rng(e->a[1]); return { 0, std::min(a.hi, b.hi) }; }
	default: return full;
	}
}
// The addends of a term whose sum cannot overflow, widened to w bits
static bool addends(E e, unsigned w, std::vector<E>& v) {
	if (v.size() > 12) return false;
	if (e->op == O_CONCAT && isC(e->a[0]) && !e->a[0]->c) return addends(e->a[1], w, v);
	if (e->op == O_ADD) {
		Rng a = rng(e->a[0]), b = rng(e->a[1]);
		if (a.hi + b.hi <= maskw(e->w)) return addends(e->a[0], w, v) && addends(e->a[1], w, v);
	}
	v.push_back(mkZExt(e, w));
	return true;
}
static E splitDiv(Op op, E a, u128 c, unsigned w) { // (x * kc + r) / c = x * k + r / c
	E t = a; while (t->op == O_CONCAT && isC(t->a[0]) && !t->a[0]->c) t = t->a[1];
	if (t->op != O_ADD && t->op != O_MUL) return nullptr;
	std::vector<E> v; if (!addends(a, w, v)) return nullptr;
	E q = mkConst(0, w), r = mkConst(0, w); bool any = false;
	for (E x : v) {
		E y = x; while (y->op == O_CONCAT && isC(y->a[0]) && !y->a[0]->c) y = y->a[1];
		if (isC(y) && y->c >= c) { any = true; q = mkBin(O_ADD, q, mkConst(y->c / c, w)); r = mkBin(O_ADD, r, mkConst(y->c % c, w)); }
		else if (y->op == O_MUL && isC(y->a[1]) && y->a[1]->c && y->a[1]->c % c == 0 && rng(y->a[0]).hi <= maskw(y->w) / y->a[1]->c) { any = true; q = mkBin(O_ADD, q, mkBin(O_MUL, mkZExt(y->a[0], w), mkConst(y->a[1]->c / c, w))); }
		else r = mkBin(O_ADD, r, x);
	}
	if (!any) return nullptr;
	r = mkBin(op, r, mkConst(c, w));
	return op == O_UDIV ? mkBin(O_ADD, q, r) : r;
}
// Division of a term by a constant, by its interval
static E divByRange(Op op, E a, u128 c, unsigned w) {
	if (w > 64 || a->h > 200) return nullptr;
	Rng r = rng(a); u128 q0 = r.lo / c, q1 = r.hi / c;
	if (q1 - q0 <= 3) {
		E x = op == O_UDIV ? mkConst(q1, w) : mkBin(O_ADD, a, mkConst(0 - q1 * c, w));
		for (u128 q = q1; q-- > q0;) x = mkITE(mkBin(O_ULT, a, mkConst((q + 1) * c, w)), op == O_UDIV ? mkConst(q, w) : mkBin(O_ADD, a, mkConst(0 - q * c, w)), x);
		return x;
	}
	if (E x = splitDiv(op, a, c, w)) return x;
	u128 top = r.hi - q0 * c; unsigned n = 0; while (n < w && (top >> n)) n++;
	if (n + 1 < w) {
		E y = mkExtract(mkBin(O_ADD, a, mkConst(0 - q0 * c, w)), 0, n), d = mkConst(c, n), z;
		if (c > maskw(n)) z = op == O_UDIV ? mkConst(0, n) : y; else z = mkBin(op, y, d);
		z = mkZExt(z, w);
		return op == O_UDIV ? mkBin(O_ADD, z, mkConst(q0, w)) : z;
	}
	return nullptr;
}
// a - c * (a / c)
static E remainderOf(E a, E b, u128 neg, unsigned w) { // b = q * k
	if (b->op != O_MUL || !isC(b->a[1]) || w > 64 || a->h > 200) return nullptr;
	u128 c = (neg ? 0 - b->a[1]->c : b->a[1]->c) & maskw(w);
	if (c < 2 || c > maskw(w - 1)) return nullptr;
	if (mkBin(O_UDIV, a, mkConst(c, w)) == b->a[0]) return mkBin(O_UREM, a, mkConst(c, w));
	// (a' + d) - c * (a' / c)
	E q = b->a[0];
	while (q->op == O_CONCAT && isC(q->a[0]) && !q->a[0]->c) q = q->a[1];
	if (q->op == O_ADD && isC(q->a[1])) q = q->a[0];
	while (q->op == O_CONCAT && isC(q->a[0]) && !q->a[0]->c) q = q->a[1];
	if (q->op != O_UDIV || !isC(q->a[1])) return nullptr;
	E y = q->a[0], d = mkBin(O_SUB, mkExtract(a, 0, y->w), y);
	if (!isC(d) || !d->c) return nullptr;
	E t = mkBin(O_ADD, a, mkConst(0 - (u128)sextw(d->c, d->w), w));
	if (mkBin(O_UDIV, t, mkConst(c, w)) != b->a[0]) return nullptr;
	return mkBin(O_ADD, mkBin(O_UREM, t, mkConst(c, w)), mkConst((u128)sextw(d->c, d->w), w));
}
const std::vector<u128>& tabOf(E e) { return g_tabs[(size_t)e->c]; }

E mkConst(u128 v, unsigned w) {
	static E small[2][65][256];
	v &= maskw(w);
	if (v < 256 && w <= 64) {
		E& s = small[0][w][(unsigned)v];
		if (!s) s = node(O_CONST, w, v);
		return s;
	}
	return node(O_CONST, w, v);
}
E mkSym(unsigned w, const std::string& name, bool uninit) {
	uint32_t id = (uint32_t)g_syms.size();
	g_syms.push_back({ (uint16_t)w, uninit, name, nullptr });
	E e = node(O_SYM, w, id);
	g_syms[id].e = e;
	return e;
}
E mkNot(E a) {
	if (isC(a)) return mkConst(!a->c, 1);
	if (a->op == O_XOR && isC(a->a[1])) return a->a[0];
	if (a->op == O_ULT) return boolNode(O_ULE, 0, a->a[1], a->a[0]);
	if (a->op == O_ULE) return boolNode(O_ULT, 0, a->a[1], a->a[0]);
	if (a->op == O_SLT) return boolNode(O_SLE, 0, a->a[1], a->a[0]);
	if (a->op == O_SLE) return boolNode(O_SLT, 0, a->a[1], a->a[0]);
	return boolNode(O_XOR, 0, a, mkConst(1, 1));
}
E mkZExt(E a, unsigned w) { if (w == a->w) return a; return mkConcat(mkConst(0, w - a->w), a); }
E mkConcat(E hi, E lo) {
	unsigned w = hi->w + lo->w;
	if (w > 128) { fprintf(stderr, "sxe: concat wider than 128 bits\n"); abort(); }
	if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
	if (hi->op == O_CONCAT) return mkConcat(hi->a[0], mkConcat(hi->a[1], lo));
	E first = lo->op == O_CONCAT ? lo->a[0] : lo;
	E merged = nullptr;
	if (isC(hi) && isC(first)) merged = mkConst((hi->c << first->w) | first->c, hi->w + first->w);
	else {
		E hb = hi, fb = first; unsigned hl = 0, fl = 0;
		if (hi->op == O_EXTRACT) { hb = hi->a[0]; hl = (unsigned)hi->c; }
		if (first->op == O_EXTRACT) { fb = first->a[0]; fl = (unsigned)first->c; }
		if (hb == fb && (hi->op == O_EXTRACT || first->op == O_EXTRACT) && hl == fl + first->w) merged = mkExtract(fb, fl, hi->w + first->w);
	}
	if (!merged && (hi->op == O_XOR || first->op == O_XOR)) { // exclusive ors of adjacent parts
		struct part { E b; unsigned l; };
		auto split = [](E e, std::vector<part>& v, u128& c) {
			std::vector<E> t{ e };
			while (!t.empty() && v.size() < 9) {
				E x = t.back(); t.pop_back();
				if (x->op == O_XOR) { t.push_back(x->a[0]); t.push_back(x->a[1]); }
				else if (isC(x)) c ^= x->c;
				else if (x->op == O_EXTRACT) v.push_back({ x->a[0], (unsigned)x->c });
				else v.push_back({ x, 0 });
			}
		};
		std::vector<part> hv, fv; u128 hc = 0, fc = 0;
		split(hi, hv, hc); split(first, fv, fc);
		if (hv.size() == fv.size() && hv.size() < 9) {
			unsigned fw = first->w, all = hi->w + fw;
			E r = mkConst(hc << fw | fc, all); bool ok = true;
			for (auto& h : hv) {
				size_t k = 0;
				while (k < fv.size() && !(fv[k].b == h.b && h.l == fv[k].l + fw)) k++;
				if (k == fv.size()) { ok = false; break; }
				r = mkBin(O_XOR, mkExtract(h.b, fv[k].l, all), r);
				fv.erase(fv.begin() + k);
			}
			if (ok) merged = r;
		}
	}
	// the low part of an expression may have been simplified on its own
	if (!merged && hi->op == O_EXTRACT && hi->c == lo->w && mkExtract(hi->a[0], 0, lo->w) == lo) return mkExtract(hi->a[0], 0, w);
	if (merged) {
		if (lo->op == O_CONCAT) return mkConcat(merged, lo->a[1]);
		return merged;
	}
	return node(O_CONCAT, w, 0, hi, lo);
}
E mkExtract(E a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->w) return a;
	switch (a->op) {
	case O_CONST: return mkConst(a->c >> lo, w);
	case O_EXTRACT: return mkExtract(a->a[0], (unsigned)a->c + lo, w);
	case O_CONCAT: {
		unsigned lw = a->a[1]->w;
		if (lo >= lw) return mkExtract(a->a[0], lo - lw, w);
		if (lo + w <= lw) return mkExtract(a->a[1], lo, w);
		return mkConcat(mkExtract(a->a[0], 0, lo + w - lw), mkExtract(a->a[1], lo, lw - lo));
	}
	case O_SEXT: {
		unsigned iw = a->a[0]->w;
		if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
		if (lo < iw) return mkSExt(mkExtract(a->a[0], lo, iw - lo), w);
		return mkSExt(mkExtract(a->a[0], iw - 1, 1), w);
	}
	case O_AND: case O_OR: case O_XOR:
		if (a->h > TALL && !isC(a->a[1])) break;
		return mkBin(a->op, mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
	case O_ADD: case O_SUB: case O_MUL:
		if (lo == 0 && a->h <= TALL) return mkBin(a->op, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
		break;
	case O_ITE:
		if ((isC(a->a[1]) || isC(a->a[2])) && a->h <= 200) return mkITE(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
		break;
	case O_TAB: {
		std::vector<u128> t = tabOf(a);
		for (auto& v : t) v = (v >> lo) & maskw(w);
		return mkTab(t, a->a[0], w);
	}
	default: break;
	}
	if (w == 1) return boolNode(O_EXTRACT, lo, a);
	return node(O_EXTRACT, w, lo, a);
}
E mkSExt(E a, unsigned w) {
	if (w == a->w) return a;
	if (isC(a)) return mkConst((u128)sextw(a->c, a->w), w);
	if (a->op == O_SEXT) return mkSExt(a->a[0], w);
	if (leadZeros(a) >= 1) return mkZExt(a, w);
	return node(O_SEXT, w, 0, a);
}
E mkTab(const std::vector<u128>& t, E idx, unsigned w) {
	if (isC(idx)) return mkConst(t[(size_t)idx->c], w);
	bool same = true, ident = true;
	for (size_t i = 0; i < t.size(); i++) { if (t[i] != t[0]) same = false; if (t[i] != i) ident = false; }
	if (same) return mkConst(t[0], w);
	if (ident) { if (w == idx->w) return idx; if (w > idx->w) return mkZExt(idx, w); }
	if (idx->op == O_TAB) {
		std::vector<u128> u; for (auto v : tabOf(idx)) u.push_back(t[(size_t)v]);
		return mkTab(u, idx->a[0], w);
	}
	std::string key((const char*)t.data(), t.size() * sizeof(u128));
	auto it = g_tabIdx.find(key);
	uint32_t id;
	if (it != g_tabIdx.end()) id = it->second;
	else { id = (uint32_t)g_tabs.size(); g_tabs.push_back(t); g_tabIdx[key] = id; }
	if (w == 1) return boolNode(O_TAB, id, idx);
	return node(O_TAB, w, id, idx);
}
E mkEq(E a, E b) { return mkBin(O_EQ, a, b); }

u128 binEval(Op op, u128 a, u128 b, unsigned w) {
	u128 m = maskw(w);
	switch (op) {
	case O_ADD: return (a + b) & m;
	case O_SUB: return (a - b) & m;
	case O_MUL: return (a * b) & m;
	case O_UDIV: return b ? a / b : m;
	case O_UREM: return b ? a % b : a;
	case O_SDIV: { if (!b) return m; i128 x = sextw(a, w), y = sextw(b, w); if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
	case O_SREM: { if (!b) return a; i128 x = sextw(a, w), y = sextw(b, w); if (y == -1) return 0; return (u128)(x % y) & m; }
	case O_AND: return a & b;
	case O_OR: return a | b;
	case O_XOR: return a ^ b;
	case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
	case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
	case O_ASHR: return (u128)(sextw(a, w) >> (b >= w ? w - 1 : (unsigned)b)) & m;
	case O_EQ: return a == b;
	case O_ULT: return a < b;
	case O_ULE: return a <= b;
	case O_SLT: return sextw(a, w) < sextw(b, w);
	case O_SLE: return sextw(a, w) <= sextw(b, w);
	default: abort();
	}
}

static E cmpSimplify(Op op, E a, E b) {
	unsigned w = a->w;
	if (a == b) return mkConst(op == O_EQ || op == O_ULE || op == O_SLE, 1);
	if (op == O_SLT || op == O_SLE) {
		if (leadZeros(a) >= 1 && leadZeros(b) >= 1) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
		if (a->op == O_SEXT && (b->op == O_SEXT) && a->a[0]->w == b->a[0]->w) return mkBin(op, a->a[0], b->a[0]);
		if (a->op == O_SEXT && isC(b)) {
			unsigned iw = a->a[0]->w; i128 v = sextw(b->c, w), lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
			if (v >= lo && v <= hi) return mkBin(op, a->a[0], mkConst((u128)v, iw));
			return mkConst(v > hi, 1);
		}
		if (b->op == O_SEXT && isC(a)) {
			unsigned iw = b->a[0]->w; i128 v = sextw(a->c, w), lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
			if (v >= lo && v <= hi) return mkBin(op, mkConst((u128)v, iw), b->a[0]);
			return mkConst(v < lo, 1);
		}
		// sign-bit tests
		if (op == O_SLT && isC(b) && b->c == 0) return mkExtract(a, w - 1, 1);
		if (op == O_SLT && isC(a) && a->c == maskw(w)) return mkNot(mkExtract(b, w - 1, 1));
	} else {
		unsigned lz = std::min(leadZeros(a), leadZeros(b));
		if (lz) {
			if (lz >= w) return mkConst(op != O_ULT, 1);
			return mkBin(op, mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz));
		}
		if (isC(b)) {
			unsigned la = leadZeros(a);
			if (la && b->c > maskw(w - la)) return mkConst(op != O_EQ, 1);
			if (op == O_ULT) { if (b->c == 0) return mkConst(0, 1); if (b->c == 1) return mkEq(a, mkConst(0, w)); }
			if (op == O_ULE) { if (b->c == maskw(w)) return mkConst(1, 1); if (b->c == 0) return mkEq(a, b); }
		}
		if (isC(a)) {
			unsigned lb = leadZeros(b);
			if (lb && a->c > maskw(w - lb)) return mkConst(0, 1);
			if (op == O_ULE && a->c == 0) return mkConst(1, 1);
			if (op == O_ULT && a->c == 0) return mkNot(mkEq(b, a));
			if (op == O_ULT && a->c == maskw(w)) return mkConst(0, 1);
		}
	}
	if (op == O_EQ) {
		if (w == 1) {
			if (isC(b)) return b->c ? a : mkNot(a);
			return mkNot(mkBin(O_XOR, a, b));
		}
		if (isC(b)) {
			if (a->op == O_ADD && isC(a->a[1])) return mkEq(a->a[0], mkConst(b->c - a->a[1]->c, w));
			if (a->op == O_XOR && isC(a->a[1])) return mkEq(a->a[0], mkConst(b->c ^ a->a[1]->c, w));
			if (a->op == O_SUB && isC(a->a[0])) return mkEq(a->a[1], mkConst(a->a[0]->c - b->c, w));
			if (a->op == O_SUB && b->c == 0) return mkEq(a->a[0], a->a[1]);
			if (a->op == O_XOR && b->c == 0) return mkEq(a->a[0], a->a[1]);
			if (a->op == O_SEXT) {
				unsigned iw = a->a[0]->w; u128 lo = b->c & maskw(iw);
				if (((u128)sextw(lo, iw) & maskw(w)) != b->c) return mkConst(0, 1);
				return mkEq(a->a[0], mkConst(lo, iw));
			}
			if (a->op == O_CONCAT) {
				unsigned lw = a->a[1]->w;
				return mkBin(O_AND, mkEq(a->a[0], mkConst(b->c >> lw, a->a[0]->w)), mkEq(a->a[1], mkConst(b->c, lw)));
			}
		} else if (a->op == O_CONCAT || b->op == O_CONCAT) {
			E x = a->op == O_CONCAT ? a : b, y = x == a ? b : a;
			// split at x's boundary when y has one there too, or is cheap to split
			unsigned lw = x->a[1]->w;
			if (y->op == O_CONCAT || y->op == O_SYM || y->op == O_EXTRACT)
				return mkBin(O_AND, mkEq(x->a[0], mkExtract(y, lw, x->a[0]->w)), mkEq(x->a[1], mkExtract(y, 0, lw)));
		}
		if (a->op == O_ADD && b->op == O_ADD && isC(a->a[1]) && isC(b->a[1])) {
			if (a->a[0] == b->a[0]) return mkConst(a->a[1]->c == b->a[1]->c, 1);
		}
		if (a->op == O_ADD && isC(a->a[1]) && a->a[0] == b) return mkConst(0, 1);
		if (b->op == O_ADD && isC(b->a[1]) && b->a[0] == a) return mkConst(0, 1);
	}
	if (isC(b) && a->op == O_ITE && (isC(a->a[1]) || isC(a->a[2])))
		return mkITE(a->a[0], mkBin(op, a->a[1], b), mkBin(op, a->a[2], b));
	if (isC(a) && b->op == O_ITE && (isC(b->a[1]) || isC(b->a[2])))
		return mkITE(b->a[0], mkBin(op, a, b->a[1]), mkBin(op, a, b->a[2]));
	if (isC(b) && a->op == O_TAB) { std::vector<u128> t; for (auto v : tabOf(a)) t.push_back(binEval(op, v, b->c, w)); return mkTab(t, a->a[0], 1); }
	return nullptr;
}

// Canonical forms of the sums and bitwise functions of 32-bit words hash functions are made of:
// sums and exclusive ors are flattened and sorted, functions of up to three operands get their algebraic normal form.
static void flat(E e, Op op, std::vector<E>& v) { if (e->op == op && v.size() <= 200) { flat(e->a[0], op, v); flat(e->a[1], op, v); } else v.push_back(e); }
static bool byId(E x, E y) { return x->id < y->id; }
static E xorOf(std::vector<E> v, u128 c, unsigned w) {
	std::sort(v.begin(), v.end(), byId);
	std::vector<E> u;
	for (E x : v) { if (!u.empty() && u.back() == x) u.pop_back(); else u.push_back(x); }
	E k = mkConst(c, w);
	if (u.empty()) return k;
	E r = u[0];
	for (size_t i = 1; i < u.size(); i++) r = w == 1 ? boolNode(O_XOR, 0, r, u[i]) : node(O_XOR, w, 0, r, u[i]);
	return k->c ? w == 1 ? boolNode(O_XOR, 0, r, k) : node(O_XOR, w, 0, r, k) : r;
}
static bool anfLeaves(E e, std::vector<E>& l, int& ops, int depth) {
	if ((e->op == O_AND || e->op == O_OR || e->op == O_XOR) && depth) {
		ops++;
		return anfLeaves(e->a[0], l, ops, depth - 1) && anfLeaves(e->a[1], l, ops, depth - 1);
	}
	if (isC(e)) return true;
	for (E x : l) if (x == e) return true;
	l.push_back(e);
	return l.size() <= 3;
}
static u128 anfValue(E e, const std::vector<E>& l, unsigned on, int depth) {
	if ((e->op == O_AND || e->op == O_OR || e->op == O_XOR) && depth) {
		u128 x = anfValue(e->a[0], l, on, depth - 1), y = anfValue(e->a[1], l, on, depth - 1);
		return e->op == O_AND ? x & y : e->op == O_OR ? x | y : x ^ y;
	}
	if (isC(e)) return e->c;
	for (size_t i = 0; i < l.size(); i++) if (l[i] == e) return on >> i & 1 ? maskw(e->w) : 0;
	return 0;
}
// Widening pushed into sums that do not overflow
static E zextIn(E x, unsigned w) {
	if (x->w == w) return x;
	if (x->op == O_ADD && x->h < 100) {
		Rng a = rng(x->a[0]), b = rng(x->a[1]);
		if (a.hi + b.hi <= maskw(x->w)) return mkBin(O_ADD, zextIn(x->a[0], w), zextIn(x->a[1], w));
		if (isC(x->a[1])) { u128 n = (0 - x->a[1]->c) & maskw(x->w); if (a.lo >= n) return mkBin(O_ADD, zextIn(x->a[0], w), mkConst((0 - n) & maskw(w), w)); }
	}
	if (x->op == O_EXTRACT && !x->c && rng(x->a[0]).hi <= maskw(x->w)) { E y = x->a[0]; return y->w <= w ? zextIn(y, w) : mkExtract(y, 0, w); }
	return mkZExt(x, w);
}
// x = cond ? p : q, seen through widening and multiplication by a constant
static bool asIte(E x, E cond, E& p, E& q, int depth = 3) {
	if (x->op == O_ITE && x->a[0] == cond) { p = x->a[1]; q = x->a[2]; return true; }
	if (!depth) return false;
	if (x->op == O_CONCAT && isC(x->a[0]) && !x->a[0]->c && asIte(x->a[1], cond, p, q, depth - 1)) { p = mkZExt(p, x->w); q = mkZExt(q, x->w); return true; }
	if (x->op == O_MUL && isC(x->a[1]) && asIte(x->a[0], cond, p, q, depth - 1)) { p = mkBin(O_MUL, p, x->a[1]); q = mkBin(O_MUL, q, x->a[1]); return true; }
	return false;
}
// Addends that are multiples of the same term are put together
static E likeTerms(E a, E b, unsigned w) {
	auto isM = [](E x) { return x->op == O_MUL && isC(x->a[1]); };
	if (!isM(a) && !isM(b) && a->op != O_ADD && b->op != O_ADD) return nullptr;
	std::vector<E> v, q{b, a}; bool mul = false;
	while (!q.empty()) {
		E x = q.back(); q.pop_back();
		if (x->op == O_ADD) { q.push_back(x->a[1]); q.push_back(x->a[0]); } else { v.push_back(x); mul |= isM(x); }
		if (v.size() + q.size() > 12) return nullptr;
	}
	if (!mul) return nullptr;
	// t % c + c * (t / c) = t
	auto narrow = [](E x) { while (x->op == O_CONCAT && isC(x->a[0]) && !x->a[0]->c) x = x->a[1]; return x; };
	for (size_t i = 0; i < v.size(); i++) if (isM(v[i])) {
		E d = narrow(v[i]->a[0]); if (d->op != O_UDIV || !isC(d->a[1]) || d->a[1]->c != v[i]->a[1]->c) continue;
		for (size_t j = 0; j < v.size(); j++) {
			E m = narrow(v[j]); if (m->op != O_UREM || m->a[0] != d->a[0] || m->a[1] != d->a[1]) continue;
			E r = mkZExt(d->a[0], w);
			for (size_t k = 0; k < v.size(); k++) if (k != i && k != j) r = mkBin(O_ADD, r, v[k]);
			return r;
		}
	}
	std::vector<std::pair<E, u128>> t; bool any = false; u128 k = 0;
	for (E x : v) {
		if (isC(x)) { k += x->c; continue; }
		E base = isM(x) ? x->a[0] : x; u128 c = isM(x) ? x->a[1]->c : 1; size_t i = 0;
		while (i < t.size() && t[i].first != base) i++;
		if (i < t.size()) { t[i].second += c; any = true; } else t.push_back({base, c});
	}
	if (!any) return nullptr;
	E r = mkConst(0, w);
	for (auto& p : t) r = mkBin(O_ADD, r, mkBin(O_MUL, p.first, mkConst(p.second & maskw(w), w)));
	return mkBin(O_ADD, r, mkConst(k & maskw(w), w));
}
static E canonical(Op op, E a, E b) {
	if (op == O_ADD) {
		if (isC(b)) return nullptr;
		std::vector<E> v; flat(a, op, v); flat(b, op, v);
		if (v.size() < 3 || v.size() > 200) return nullptr;
		u128 c = 0; std::vector<E> u;
		for (E x : v) if (isC(x)) c += x->c; else u.push_back(x);
		std::sort(u.begin(), u.end(), byId);
		E r = u[0];
		for (size_t i = 1; i < u.size(); i++) r = node(O_ADD, 32, 0, r, u[i]);
		return (c & 0xffffffffu) ? node(O_ADD, 32, 0, r, mkConst(c, 32)) : r;
	}
	unsigned w = a->w;
	E t = node(op, w, 0, a, b);
	std::vector<E> l; int ops = 0;
	if (anfLeaves(t, l, ops, 12) && (w == 32 ? l.size() >= 1 : l.size() == 1) && ops >= 2) {
		std::sort(l.begin(), l.end(), byId);
		unsigned n = (unsigned)l.size();
		std::vector<E> v; u128 k = 0, val[8];
		for (unsigned m = 0; m < 1u << n; m++) val[m] = anfValue(t, l, m, 12);
		for (unsigned m = 0; m < 1u << n; m++) { // Moebius transform
			u128 c = 0;
			for (unsigned s = 0; s < 1u << n; s++) if ((s & m) == s) c ^= val[s];
			c &= maskw(w);
			if (!c) continue;
			if (!m) { k = c; continue; }
			E p = nullptr;
			for (unsigned i = 0; i < n; i++) if (m >> i & 1) p = p ? node(O_AND, w, 0, p, l[i]) : l[i];
			if (c != maskw(w)) p = node(O_AND, w, 0, p, mkConst(c, w));
			v.push_back(p);
		}
		return xorOf(v, k, w);
	}
	if (op == O_XOR) {
		std::vector<E> v; flat(a, op, v); flat(b, op, v);
		if (v.size() < 3 || v.size() > 200) return nullptr;
		u128 c = 0; std::vector<E> u;
		for (E x : v) if (isC(x)) c ^= x->c; else u.push_back(x);
		return xorOf(u, c, w);
	}
	return nullptr;
}
E mkBin(Op op, E a, E b) {
	unsigned w = a->w;
	if (a->w != b->w) { fprintf(stderr, "sxe: width mismatch op %d: %u vs %u\n", op, a->w, b->w); abort(); }
	bool cmp = op >= O_EQ && op <= O_SLE;
	if (isC(a) && isC(b)) return mkConst(binEval(op, a->c, b->c, w), cmp ? 1 : w);
	if (comm(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
	if (cmp) {
		E r = cmpSimplify(op, a, b);
		if (r) return r;
		return boolNode(op, 0, a, b);
	}
	switch (op) {
	case O_ADD:
		if (E r = remainderOf(a, b, 1, w)) return r;
		if (E r = remainderOf(b, a, 1, w)) return r;
		if (isC(b)) {
			if (b->c == 0) return a;
			if (a->op == O_ADD && isC(a->a[1])) return mkBin(O_ADD, a->a[0], mkConst(a->a[1]->c + b->c, w));
			if (w > 32 && w <= 64 && a->op == O_CONCAT && isC(a->a[0]) && !a->a[0]->c && a->a[1]->op == O_ADD && isC(a->a[1]->a[1])) {
				E t = zextIn(a->a[1], w);
				if (t->op == O_ADD) return mkBin(O_ADD, t, b);
			}
			if (a->op == O_OR && isC(a->a[1]) && !(a->a[1]->c & ~knownZero(a->a[0]))) return mkBin(O_ADD, a->a[0], mkConst(a->a[1]->c + b->c, w));
			if (a->op == O_SUB && isC(a->a[0])) return mkBin(O_SUB, mkConst(a->a[0]->c + b->c, w), a->a[1]);
		} else {
			if (a->op == O_ADD && isC(a->a[1])) return mkBin(O_ADD, mkBin(O_ADD, a->a[0], b), a->a[1]);
			if (b->op == O_ADD && isC(b->a[1])) return mkBin(O_ADD, mkBin(O_ADD, a, b->a[0]), b->a[1]);
			if (a->op == O_SUB && a->a[1] == b) return a->a[0];
			if (b->op == O_SUB && b->a[1] == a) return b->a[0];
		}
		if (((knownZero(a) | knownZero(b)) & maskw(w)) == maskw(w)) return mkBin(O_OR, a, b);
		if (w == 1) return mkBin(O_XOR, a, b);
		{ E p, q;
			if (a->op == O_ITE && asIte(b, a->a[0], p, q)) return mkITE(a->a[0], mkBin(O_ADD, a->a[1], p), mkBin(O_ADD, a->a[2], q));
			if (b->op == O_ITE && asIte(a, b->a[0], p, q)) return mkITE(b->a[0], mkBin(O_ADD, p, b->a[1]), mkBin(O_ADD, q, b->a[2]));
		}
		if (w > 32 && w <= 64) if (E r = likeTerms(a, b, w)) return r;
		if (w == 32) if (E r = canonical(op, a, b)) return r;
		break;
	case O_SUB:
		if (a == b) return mkConst(0, w);
		if (E r = remainderOf(a, b, 0, w)) return r;
		if (isC(b)) return mkBin(O_ADD, a, mkConst(-b->c, w));
		if (a->op == O_ADD && isC(a->a[1])) return mkBin(O_ADD, mkBin(O_SUB, a->a[0], b), a->a[1]);
		if (b->op == O_ADD && isC(b->a[1])) return mkBin(O_ADD, mkBin(O_SUB, a, b->a[0]), mkConst(-b->a[1]->c, w));
		if (a->op == O_ADD) { if (a->a[0] == b) return a->a[1]; if (a->a[1] == b) return a->a[0]; }
		if (b->op == O_ADD) { if (b->a[0] == a) return mkBin(O_SUB, mkConst(0, w), b->a[1]); if (b->a[1] == a) return mkBin(O_SUB, mkConst(0, w), b->a[0]); }
		if (b->op == O_SUB && b->a[0] == a) return b->a[1];
		break;
	case O_MUL:
		if (isC(b)) {
			if (b->c == 0) return b;
			if (b->c == 1) return a;
			if (a->op == O_ADD && isC(a->a[1]) && w <= 64) return mkBin(O_ADD, mkBin(O_MUL, a->a[0], b), mkConst(a->a[1]->c * b->c, w));
			if ((b->c & (b->c - 1)) == 0) { unsigned n = 0; while (!(b->c >> n & 1)) n++; return mkBin(O_SHL, a, mkConst(n, w)); }
		}
		break;
	case O_UDIV:
		if (isC(b)) {
			if (b->c == 1) return a;
			if (b->c && (b->c & (b->c - 1)) == 0) { unsigned n = 0; while (!(b->c >> n & 1)) n++; return mkBin(O_LSHR, a, mkConst(n, w)); }
			if (b->c) if (E r = divByRange(op, a, b->c, w)) return r;
			unsigned lz = leadZeros(a);
			if (b->c && lz && b->c > maskw(w - lz)) return mkConst(0, w);
			if (lz > 1 && b->c && b->c <= maskw(w - lz)) return mkZExt(mkBin(O_UDIV, mkExtract(a, 0, w - lz), mkConst(b->c, w - lz)), w);
		}
		break;
	case O_UREM:
		if (isC(b) && b->c) {
			if ((b->c & (b->c - 1)) == 0) return mkBin(O_AND, a, mkConst(b->c - 1, w));
			if (E r = divByRange(op, a, b->c, w)) return r;
			unsigned lz = leadZeros(a);
			if (lz && b->c > maskw(w - lz)) return a;
			if (lz > 1) return mkZExt(mkBin(O_UREM, mkExtract(a, 0, w - lz), mkConst(b->c, w - lz)), w);
		}
		break;
	case O_SDIV: if ((leadZeros(a) || rng(a).hi <= maskw(w - 1)) && leadZeros(b)) return mkBin(O_UDIV, a, b); break;
	case O_SREM: if ((leadZeros(a) || rng(a).hi <= maskw(w - 1)) && leadZeros(b)) return mkBin(O_UREM, a, b); break;
	case O_AND: case O_OR: case O_XOR: {
		if (a == b) return op == O_XOR ? mkConst(0, w) : a;
		if (isC(b)) {
			u128 m = maskw(w);
			if (op == O_AND) { if (b->c == 0) return b; if (b->c == m) return a; }
			else if (op == O_OR) { if (b->c == 0) return a; if (b->c == m) return b; }
			else if (b->c == 0) return a;
			if (w > 1 && (op != O_XOR || a->op == O_CONCAT) && (op == O_XOR || runs(b->c, w) <= 6)) {
				std::vector<E> p;
				if (op == O_XOR) {
					std::vector<E> q; pieces(a, q);
					unsigned pos = w;
					for (E x : q) { pos -= x->w; p.push_back(mkBin(O_XOR, x, mkConst(b->c >> pos, x->w))); }
				} else {
					int hi = w - 1;
					while (hi >= 0) {
						int lo = hi; bool bit = b->c >> hi & 1;
						while (lo > 0 && (bool)(b->c >> (lo - 1) & 1) == bit) lo--;
						unsigned rw = hi - lo + 1;
						if (op == O_AND) p.push_back(bit ? mkExtract(a, lo, rw) : mkConst(0, rw));
						else p.push_back(bit ? mkConst(maskw(rw), rw) : mkExtract(a, lo, rw));
						hi = lo - 1;
					}
				}
				return concatAll(p);
			}
			if (a->op == op && isC(a->a[1])) return mkBin(op, a->a[0], mkConst(binEval(op, a->a[1]->c, b->c, w), w));
			if (w > 1 && op == O_AND && a->op == O_XOR && isC(a->a[1])) return mkBin(O_XOR, mkBin(O_AND, a->a[0], b), mkConst(a->a[1]->c & b->c, w));
		} else if (w > 1 && (a->op == O_CONCAT || b->op == O_CONCAT) && ((a->h <= TALL && b->h <= TALL) || (op == O_OR && a->op == O_CONCAT && b->op == O_CONCAT))) {
			E x = a->op == O_CONCAT ? a : b, y = x == a ? b : a;
			unsigned lw = x->a[1]->w;
			return mkConcat(mkBin(op, x->a[0], mkExtract(y, lw, w - lw)), mkBin(op, x->a[1], mkExtract(y, 0, lw)));
		}
		if (w == 1) {
			// absorption / complement
			auto isNotOf = [](E p, E q) { return p->op == O_XOR && isC(p->a[1]) && p->a[0] == q; };
			if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(op == O_AND ? 0 : 1, 1);
			if (op == O_XOR && isC(b)) break;
			if (op == O_XOR) {
				std::vector<E> v; flat(a, op, v); flat(b, op, v);
				u128 c = 0; std::vector<E> u;
				for (E x : v) if (isC(x)) c ^= x->c; else u.push_back(x);
				return xorOf(u, c & 1, 1);
			}
			if (op == O_AND) {
				if (a->op == O_AND && (a->a[0] == b || a->a[1] == b)) return a;
				if (b->op == O_AND && (b->a[0] == a || b->a[1] == a)) return b;
			}
			if (op == O_OR) {
				if (a->op == O_OR && (a->a[0] == b || a->a[1] == b)) return a;
				if (b->op == O_OR && (b->a[0] == a || b->a[1] == a)) return b;
			}
		}
		if (a->op == O_TAB && isC(b)) { std::vector<u128> t; for (auto v : tabOf(a)) t.push_back(binEval(op, v, b->c, w)); return mkTab(t, a->a[0], w); }
		if (w > 1) if (E r = canonical(op, a, b)) return r;
		break;
	}
	case O_SHL: case O_LSHR: case O_ASHR:
		if (isC(b)) {
			if (b->c == 0) return a;
			unsigned n = b->c >= w ? w : (unsigned)b->c;
			if (op == O_ASHR) {
				if (n >= w) n = w - 1;
				return mkSExt(mkExtract(a, n, w - n), w);
			}
			if (n >= w) return mkConst(0, w);
			if (op == O_SHL) return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
			return mkZExt(mkExtract(a, n, w - n), w);
		}
		if (isC(a) && a->c == 0) return a;
		break;
	default: break;
	}
	if (isC(b) && a->op == O_ITE && isC(a->a[1]) && isC(a->a[2]))
		return mkITE(a->a[0], mkBin(op, a->a[1], b), mkBin(op, a->a[2], b));
	if (isC(a) && b->op == O_ITE && isC(b->a[1]) && isC(b->a[2]))
		return mkITE(b->a[0], mkBin(op, a, b->a[1]), mkBin(op, a, b->a[2]));
	if (isC(b) && a->op == O_TAB && w <= 64) { std::vector<u128> t; for (auto v : tabOf(a)) t.push_back(binEval(op, v, b->c, w)); return mkTab(t, a->a[0], w); }
	if (w == 1) return boolNode(op, 0, a, b);
	return node(op, w, 0, a, b);
}

E mkITE(E c, E a, E b) {
	if (isC(c)) return c->c ? a : b;
	if (a == b) return a;
	if (c->op == O_XOR && isC(c->a[1])) return mkITE(c->a[0], b, a);
	if (a->w == 1) {
		if (isC(a)) return a->c ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
		if (isC(b)) return b->c ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
		return boolNode(O_ITE, 0, c, a, b);
	}
	if (a->op == O_ITE && a->a[0] == c) a = a->a[1];
	if (b->op == O_ITE && b->a[0] == c) b = b->a[2];
	if (a == b) return a;
	// ite of zero-extended values: keep the zeros visible
	unsigned lz = std::min(leadZeros(a), leadZeros(b));
	if (lz && lz < a->w) {
		unsigned n = a->w - lz;
		E x = mkExtract(a, 0, n), y = mkExtract(b, 0, n);
		if (leadZeros(x) == 0 || leadZeros(y) == 0) return mkZExt(mkITE(c, x, y), lz + n);
	}
	return node(O_ITE, a->w, 0, c, a, b);
}

u128 evalIn(E e, const Model& m) {
	if (e->op == O_CONST) return e->c;
	if (e->evgen == g_evgen) return e->ev;
	u128 r;
	switch (e->op) {
	case O_SYM: r = m.get((uint32_t)e->c) & maskw(e->w); break;
	case O_ITE: r = evalIn(e->a[0], m) ? evalIn(e->a[1], m) : evalIn(e->a[2], m); break;
	case O_CONCAT: r = (evalIn(e->a[0], m) << e->a[1]->w) | evalIn(e->a[1], m); break;
	case O_EXTRACT: r = (evalIn(e->a[0], m) >> (unsigned)e->c) & maskw(e->w); break;
	case O_SEXT: r = (u128)sextw(evalIn(e->a[0], m), e->a[0]->w) & maskw(e->w); break;
	case O_TAB: r = tabOf(e)[(size_t)evalIn(e->a[0], m)]; break;
	default: r = binEval(e->op, evalIn(e->a[0], m), evalIn(e->a[1], m), e->a[0]->w);
	}
	e->evgen = g_evgen; e->ev = r;
	return r;
}
u128 evalNoMemo(E e, const Model& m) {
	g_evgen++;
	u128 r = evalIn(e, m);
	g_evgen++;
	return r;
}

// ---- exhaustive tables over one symbol --------------------------------------------------
typedef std::vector<u128> Tab;
static std::unordered_map<E, std::shared_ptr<Tab>> g_utab;
static std::shared_ptr<Tab> utab(E e, unsigned n) {
	auto it = g_utab.find(e);
	if (it != g_utab.end()) return it->second;
	auto r = std::make_shared<Tab>(n);
	switch (e->op) {
	case O_CONST: for (auto& x : *r) x = e->c; return r;
	case O_SYM: for (unsigned i = 0; i < n; i++) (*r)[i] = i; break;
	case O_ITE: { auto c = utab(e->a[0], n), a = utab(e->a[1], n), b = utab(e->a[2], n); for (unsigned i = 0; i < n; i++) (*r)[i] = (*c)[i] ? (*a)[i] : (*b)[i]; break; }
	case O_CONCAT: { auto a = utab(e->a[0], n), b = utab(e->a[1], n); for (unsigned i = 0; i < n; i++) (*r)[i] = ((*a)[i] << e->a[1]->w) | (*b)[i]; break; }
	case O_EXTRACT: { auto a = utab(e->a[0], n); for (unsigned i = 0; i < n; i++) (*r)[i] = ((*a)[i] >> (unsigned)e->c) & maskw(e->w); break; }
	case O_SEXT: { auto a = utab(e->a[0], n); for (unsigned i = 0; i < n; i++) (*r)[i] = (u128)sextw((*a)[i], e->a[0]->w) & maskw(e->w); break; }
	case O_TAB: { auto a = utab(e->a[0], n); auto& t = tabOf(e); for (unsigned i = 0; i < n; i++) (*r)[i] = t[(size_t)(*a)[i]]; break; }
	default: { auto a = utab(e->a[0], n), b = utab(e->a[1], n); for (unsigned i = 0; i < n; i++) (*r)[i] = binEval(e->op, (*a)[i], (*b)[i], e->a[0]->w); }
	}
	g_utab[e] = r;
	return r;
}
std::vector<u128> unaryTable(E e) {
	if (g_utab.size() > 20000) g_utab.clear();
	return *utab(e, 1u << g_syms[e->sup->front()].w);
}
const Set256* truthSet(E e) {
	if (e->ts) return e->ts;
	if (e->w != 1 || e->sup->size() != 1) return nullptr;
	unsigned sw = g_syms[e->sup->front()].w;
	if (sw > 8) return nullptr;
	auto* s = new Set256();
	if ((e->op == O_AND || e->op == O_OR || (e->op == O_XOR && isC(e->a[1]))) && e->a[0]->ts && (e->a[1]->ts || isC(e->a[1]))) {
		Set256 all; for (unsigned i = 0; i < (1u << sw); i++) all.set(i);
		Set256 x = *e->a[0]->ts, y = isC(e->a[1]) ? (e->a[1]->c ? all : Set256()) : *e->a[1]->ts;
		*s = e->op == O_AND ? x & y : e->op == O_OR ? x | y : x ^ y;
	} else {
		if (g_utab.size() > 20000) g_utab.clear();
		auto t = utab(e, 1u << sw);
		for (size_t i = 0; i < t->size(); i++) if ((*t)[i]) s->set(i);
	}
	e->ts = s;
	return s;
}

std::string exprStr(E e, int depth) {
	static const char* n[] = { "const","sym","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","concat","extract","sext","tab" };
	char b[64];
	if (e->op == O_CONST) { snprintf(b, sizeof b, "0x%llx:%u", (unsigned long long)e->c, e->w); return b; }
	if (e->op == O_SYM) return g_syms[(size_t)e->c].name;
	if (depth == 0) return "...";
	std::string s = std::string("(") + n[e->op];
	if (e->op == O_EXTRACT) { snprintf(b, sizeof b, "[%u+%u]", (unsigned)e->c, e->w); s += b; }
	for (int i = 0; i < 3; i++) if (e->a[i]) s += " " + exprStr(e->a[i], depth - 1);
	return s + ")";
}
