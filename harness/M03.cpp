// @bounds intervals: all pairs of 64-bit bounds; mapping tables of 0..3 (thorough 0..5) entries with arbitrary 64-bit (signed 32-bit) non-decreasing coordinates, every position, every hint
// @assume mapping tables are sorted by both coordinates, as their producers emit them; entries searched by have distinct keys
// @outside larger tables
#include "common.h"
#include <stdex/interval.hpp>
#include <stdex/mapping.hpp>
SX_CASE(interval)
{
	typedef uint64_t T;
	T a = sx_u64("start"), b = sx_u64("end"), x = sx_u64("x"), d = sx_u64("d");
	stdex::interval<T> i(a, b);
	sx_check(i.size() == (a <= b ? b - a : 0), "size");
	sx_check(i.empty() == !(a < b), "empty");
	sx_check((bool)i == (a <= b), "validity");
	sx_check(i.contains(x) == (a <= x && x < b), "contains");
	if (a <= b) {
		sx_check(!i.empty() || !i.contains(x), "an empty interval contains nothing");
		// shifting without wrapping keeps membership
		sx_assume(b + d >= b && x + d >= x);
		sx_check((i + d).contains(x + d) == i.contains(x), "shift up");
		sx_check(((i + d) - d) == i, "shift back");
		auto j = i; j += d; sx_check(j == i + d, "+="); j -= d; sx_check(j == i, "-=");
		auto k = i++; sx_check(k == stdex::interval<T>(a, b) && i == stdex::interval<T>(a + 1, b + 1), "post-increment");
		++i; sx_check(i == stdex::interval<T>(a + 2, b + 2), "pre-increment");
		auto l = i--; sx_check(l == stdex::interval<T>(a + 2, b + 2) && i == stdex::interval<T>(a + 1, b + 1), "post-decrement");
		--i; sx_check(i == stdex::interval<T>(a, b), "pre-decrement");
		stdex::interval<T> o(d, d);
		sx_check((i + o) == stdex::interval<T>(a + d, b + d) && ((i + o) - o) == i, "interval sum");
		sx_cover("valid interval");
	}
	stdex::interval<T> p(x);
	sx_check(p.empty() && (bool)p && p.start == x && p.end == x, "point interval");
	i.invalidate();
	sx_check(!i && i == stdex::interval<T>() && i.empty() && i.size() == 0, "invalidated interval");
	sx_check(i != p, "inequality");
}
template <class T>
static void map(size_t maxn, T hi)
{
	std::vector<stdex::mapping<T>> m;
	size_t n = sx_choose(maxn + 1, "entries");
	m.reserve(n + 1);
	T f[8], t[8];
	bool mono = true;
	for (size_t i = 0; i < n; i++) {
		uint64_t x = sx_u64("from"), y = sx_u64("to");
		f[i] = (T)x; t[i] = (T)y;
		sx_assume(f[i] >= 0 && f[i] <= hi && t[i] >= 0 && t[i] <= hi);
		if (i) sx_assume((f[i - 1] <= f[i]) & (t[i - 1] <= t[i]));
		m.push_back(stdex::mapping<T>(f[i], t[i]));
	}
	bool inv = sx_choose(2, "direction") != 0; // 0: src2dst by from, 1: dst2src by to
	T* key = inv ? t : f; T* val = inv ? f : t;
	for (size_t i = 1; i < n; i++) sx_assume(key[i - 1] < key[i]);
	T p = (T)sx_u64("position");
	sx_assume(p >= 0 && p <= hi);
	T r = inv ? stdex::dst2src(m, p) : stdex::src2dst(m, p);
	// the last entry at or before the position governs
	T e = p;
	if (n) {
		if (p < key[0]) e = p < val[0] ? p : val[0];
		else for (size_t i = 0; i < n; i++) if (key[i] <= p) e = val[i] + (p - key[i]);
	}
	sx_check(r == e, "translation follows the last entry at or before the position");
	if (n) {
		size_t h = sx_choose(n, "hint");
		size_t hh = h;
		T r2 = inv ? stdex::dst2src(m, p, hh) : stdex::src2dst(m, p, hh);
		sx_check(r2 == r, "the hinted search agrees with the plain one");
		sx_check(hh < n, "the returned hint designates an entry");
		T r3 = inv ? stdex::dst2src(m, p, hh) : stdex::src2dst(m, p, hh);
		sx_check(r3 == r, "the returned hint serves the same position again");
		sx_cover("hinted");
		// forth and back where both coordinates strictly increase by the same amount around the position
		if (p >= key[0]) {
			size_t g = 0; while (g + 1 < n && key[g + 1] <= p) g++;
			bool strict = true;
			for (size_t i = 1; i < n; i++) strict &= val[i - 1] < val[i];
			if (strict && (g + 1 == n || r < val[g + 1])) {
				T b = inv ? stdex::src2dst(m, r) : stdex::dst2src(m, r);
				sx_check(b == p, "translating forth and back restores the position");
				sx_cover("round trip");
			}
		}
	}
	if (n) {
		auto x = m[0]; auto y = x; y.invert();
		sx_check(y.from == x.to && y.to == x.from, "invert swaps the coordinates");
		auto z = x + m[n - 1];
		sx_check(z.from == (T)(x.from + m[n - 1].from) && z.to == (T)(x.to + m[n - 1].to), "sum");
		sx_check((x == m[n - 1]) == !(x != m[n - 1]), "equality");
	}
}
SX_CASE(map_size) { map<size_t>(sx_bound(3, 5), (size_t)1 << 62); }
SX_CASE(map_int) { map<int>(sx_bound(3, 4), 1 << 29); }
