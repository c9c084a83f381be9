// @bounds capacities 1..4 (thorough 1..5), histories of 5 (thorough 7) operations chosen among all of them, element values arbitrary; one copied/moved/assigned queue of an arbitrary capacity
// @outside longer histories; capacity 0; std::bad_alloc
#include "common.h"
#include <stdex/vector_queue.hpp>
#include <stdexcept>
// an element that owns memory, so that lost or doubly owned elements show
static int balance;
struct el {
	int v; int* own;
	el() : v(0), own(nullptr) { balance++; }
	el(int x) : v(x), own(new int(x)) { balance++; }
	el(const el& o) : v(o.v), own(o.own ? new int(*o.own) : nullptr) { balance++; }
	el(el&& o) noexcept : v(o.v), own(o.own) { o.own = nullptr; balance++; }
	el& operator=(const el& o) { if (this != &o) { delete own; v = o.v; own = o.own ? new int(*o.own) : nullptr; } return *this; }
	el& operator=(el&& o) noexcept { if (this != &o) { delete own; v = o.v; own = o.own; o.own = nullptr; } return *this; }
	~el() { delete own; balance--; }
};
struct ideal { int d[16]; size_t n = 0, cap = 0; };
template <class Q> static void same(Q& q, const ideal& m)
{
	const Q& c = q;
	sx_check(q.size() == m.n && q.capacity() == m.cap && q.empty() == (m.n == 0), "size, capacity and emptiness");
	for (size_t i = 0; i < m.n; i++) {
		sx_check(q[i].v == m.d[i] && q.at(i).v == m.d[i] && c[i].v == m.d[i] && c.at(i).v == m.d[i], "element at a position");
		sx_check(q[i].own && *q[i].own == m.d[i], "the element itself is stored");
	}
	if (m.n) {
		sx_check(q.front().v == m.d[0] && c.front().v == m.d[0], "front");
		sx_check(q.back().v == m.d[m.n - 1] && c.back().v == m.d[m.n - 1], "back");
		sx_check(q.at_abs(q.head()).v == m.d[0] && q.at_abs(q.tail()).v == m.d[m.n - 1], "head and tail positions");
	}
	bool t = false; try { q.at(m.n); } catch (const std::invalid_argument&) { t = true; } sx_check(t, "subscript past the end is refused");
	t = false; try { q[m.n]; } catch (const std::invalid_argument&) { t = true; } sx_check(t, "subscript past the end is refused");
	t = false; try { q.at_abs(m.cap); } catch (const std::invalid_argument&) { t = true; } sx_check(t, "absolute subscript past the capacity is refused");
}
static void push(stdex::vector_queue<el>& q, ideal& m, bool front, bool mv)
{
	int x = (int)sx_u8("value");
	el e(x);
	size_t pos = front ? (mv ? q.push_front(std::move(e)) : q.push_front(e)) : (mv ? q.push_back(std::move(e)) : q.push_back(e));
	if (front) { if (m.n < m.cap) m.n++; for (size_t i = m.n - 1; i > 0; i--) m.d[i] = m.d[i - 1]; m.d[0] = x; }
	else { if (m.n == m.cap) { for (size_t i = 1; i < m.n; i++) m.d[i - 1] = m.d[i]; m.n--; } m.d[m.n++] = x; }
	sx_check(pos < m.cap && q.at_abs(pos).v == x, "the position a push returns designates the element");
}
static void history(size_t cap, size_t ops, unsigned kinds)
{
	uint64_t blocks = sx_live_blocks(); int bal = balance;
	{
		stdex::vector_queue<el> q(cap);
		ideal m; m.cap = cap;
		for (size_t k = 0; k < ops; k++) {
			switch (sx_choose(kinds, "op")) {
			case 0: push(q, m, false, k & 1); break;
			case 1: push(q, m, true, k & 1); break;
			case 2: { bool t = false; try { q.pop_front(); } catch (const std::invalid_argument&) { t = true; } sx_check(t == (m.n == 0), "pop from an empty queue is refused"); if (m.n) { for (size_t i = 1; i < m.n; i++) m.d[i - 1] = m.d[i]; m.n--; } break; }
			case 3: { bool t = false; try { q.pop_back(); } catch (const std::invalid_argument&) { t = true; } sx_check(t == (m.n == 0), "pop from an empty queue is refused"); if (m.n) m.n--; break; }
			case 4: q.clear(); m.n = 0; break;
			case 5: { stdex::vector_queue<el> c(q); same(c, m); same(q, m); ideal m2 = m; push(c, m2, false, false); same(c, m2); break; }
			case 6: { stdex::vector_queue<el> c(std::move(q)); same(c, m); q = c; same(c, m); break; }
			case 7: { stdex::vector_queue<el> c(1 + sx_choose(2, "capacity")); ideal x; x.cap = c.capacity(); push(c, x, false, false); c = q; same(c, m); q = std::move(c); break; }
			case 8: { auto& self = q; q = self; break; }
			}
			same(q, m);
		}
		if (m.n == cap) sx_cover("full");
		if (m.n == 0) sx_cover("empty");
	}
	sx_check(balance == bal, "every element is destroyed exactly once");
	sx_check(sx_live_blocks() == blocks, "no memory is leaked");
}
SX_CASE(ends) { history(1 + sx_choose(sx_bound(4, 6), "capacity"), sx_bound(5, 7), 4); }
SX_CASE(all) { history(1 + sx_choose(sx_bound(3, 5), "capacity"), sx_bound(3, 5), 9); }
// any starting layout (head anywhere) followed by one operation of every kind
SX_CASE(rotated) {
	size_t cap = 1 + sx_choose(sx_bound(5, 8), "capacity"), rot = sx_choose(cap, "rotation"), n = sx_choose(cap + 1, "size");
	stdex::vector_queue<el> q(cap); ideal m; m.cap = cap;
	for (size_t i = 0; i < rot; i++) { q.push_back(el(1)); q.pop_front(); }
	for (size_t i = 0; i < n; i++) push(q, m, false, true);
	same(q, m);
	push(q, m, sx_choose(2, "end") != 0, false); same(q, m);
	{ stdex::vector_queue<el> c(q); same(c, m); }
	if (sx_choose(2, "given")) {
		// to a queue with a layout of its own, and back
		stdex::vector_queue<el> c(3); ideal x; x.cap = 3; for (size_t i = 0, r = sx_choose(3, "rotation2"); i < r; i++) { c.push_back(el(2)); c.pop_front(); } if (sx_choose(2, "content2")) { push(c, x, false, false); push(c, x, true, false); }
		same(c, x);
		switch (sx_choose(3, "how")) { case 0: c = q; same(q, m); break; case 1: c = std::move(q); break; default: { stdex::vector_queue<el> t(std::move(q)); same(t, m); c = std::move(t); } }
		same(c, m); push(c, m, sx_choose(2, "end3") != 0, false); same(c, m);
		q = std::move(c); same(q, m);
	}
	if (sx_choose(2, "end2")) q.pop_back(), m.n--; else { q.pop_front(); for (size_t i = 1; i < m.n; i++) m.d[i - 1] = m.d[i]; m.n--; }
	same(q, m);
}
