// Texts whose memory ends exactly where a reader must stop: n units without a zero, then either a terminator
// (limit beyond it) or the end of the block (limit n).
#pragma once
#include "common.h"
template <class T> struct text {
	size_t n, limit; bool term; T* p; T at[16];
	text(size_t maxn, const char* name, bool must_term = false, size_t minn = 0)
	{
		n = minn + sx_choose((uint32_t)(maxn - minn + 1), name); fill(must_term);
	}
	void fill(bool must_term)
	{
		uint32_t k = must_term ? 1 + sx_choose(2, "limit") : sx_choose(3, "limit");
		term = k != 0; limit = k == 0 ? n : k == 1 ? n + 1 : SIZE_MAX;
		p = new T[n + term];
		sx_symbolic(p, n * sizeof(T), "text");
		for (size_t i = 0; i < n; ++i) { sx_assume(p[i] != 0); at[i] = p[i]; }
		if (term) p[n] = 0;
	}
	text(const text&) = delete;
	~text() { delete[] p; }
	T operator[](size_t i) const { return i < n ? at[i] : T(0); }
};
template <class T> static inline T lc(T c) { return (unsigned)((unsigned)c - 'A') < 26 ? T(c + 32) : c; }
template <class T> static inline T uc(T c) { return (unsigned)((unsigned)c - 'a') < 26 ? T(c - 32) : c; }
template <class T> static inline bool sp(T c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
