// Parser parts with arbitrary behaviour, texts and helpers for the parser harnesses
#pragma once
#include "text.h"
#include <stdex/parser.hpp>
using namespace stdex;
using namespace stdex::parser;
static const size_t NONE = SIZE_MAX;
struct region { size_t s = 1, e = 0; bool ok() const { return s <= e; } };
// A part: at each position of a text of N units, it does not match or matches an arbitrary number of units in [lo, hi].
template <class Base> struct part_ : Base {
	const char* name; size_t N, lo, hi; const char* text; int fl; int t[16];
	size_t asked = 0;
	template <class... A> part_(const char* name, size_t N, size_t lo, size_t hi, const char* text, int fl, A&&... a) : Base(std::forward<A>(a)...), name(name), N(N), lo(lo), hi(hi), text(text), fl(fl)
	{
		for (int& x : t) x = -2;
		// an earlier result
		if (sx_choose(2, "used")) this->interval.start = 0, this->interval.end = N;
	}
	part_(const char* name, size_t N, size_t lo, size_t hi, const char* text, int fl, bool used) : name(name), N(N), lo(lo), hi(hi), text(text), fl(fl)
	{
		for (int& x : t) x = -2;
		if (used) this->interval.start = 0, this->interval.end = N;
	}
	int at(size_t p) // matched units at p, -1 for none
	{
		if (t[p] == -2) {
			size_t m = N - p < hi ? N - p : hi;
			t[p] = m < lo ? -1 : (int)sx_choose((uint32_t)(m - lo + 2), name) - 1;
			if (t[p] >= 0) t[p] += (int)lo;
		}
		return t[p];
	}
	bool is(region r) const { return r.ok() ? this->interval.start == r.s && this->interval.end == r.e : !this->interval; }
protected:
	virtual bool do_match(const char* tx, size_t start = 0, size_t end = SIZE_MAX, int flags = match_default) override
	{
		sx_check(tx == text && end == N && flags == fl, "part asked about the same text, end and flags");
		sx_check(start <= N, "part asked inside the text");
		++asked;
		int l = at(start);
		if (l < 0) { this->invalidate(); return false; }
		this->interval.start = start; this->interval.end = start + l;
		return true;
	}
};
typedef part_<basic_parser<char>> part;
typedef std::shared_ptr<part> ppart;
static inline ppart mk(const char* name, size_t N, size_t lo, size_t hi, const char* text, int fl, bool used) { return std::make_shared<part>(name, N, lo, hi, text, fl, used); }
template <class P> static bool at(const P& p, size_t s, size_t e) { return p.interval.start == s && p.interval.end == e; }
template <class X> static void region_is(const X& p, bool have, size_t s, size_t e, const char* msg) { sx_check(have ? p.interval.start == s && p.interval.end == e : !p.interval, msg); }
