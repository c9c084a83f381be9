// @flags -O2 -fno-vectorize -fno-slp-vectorize
// @bounds compiled as for release (-O2): vectors, strings and blobs of 1..48 arbitrary bytes through every history of 3 (thorough 4) growths, shrinks, copies, moves and swaps; handles: every history of 4 (thorough 5) operations on 3 owners; pointer helpers: every history of 3 calls that read, keep, replace or clear the pointer; the real close/dup with arbitrary results
// @outside short strings that the standard string keeps inside itself (never allocated, so never given back through the allocator); longer histories
#include "common.h"
#include <stdex/memory.hpp>
#include <stdex/scoped_executor.hpp>
#include <stdex/system.hpp>
#include <stdex/assert.hpp>
#include <system_error>
using namespace std;
using namespace stdex;
template <class T> using svec = vector<T, sanitizing_allocator<T>>;
typedef basic_string<char, char_traits<char>, sanitizing_allocator<char>> sstr;
template <class T> static void fill(T& c) { uint8_t b[8]; sx_symbolic(b, 8, "secret"); size_t n = 16 + sx_choose(2, "n") * 17; for (size_t i = 0; i < n; ++i) c.push_back(b[i & 7]); }
template <class C>
static void container()
{
	sx_wiped_on_free(true); size_t live = sx_live_blocks();
	{
		C a, b; fill(a); uint8_t first = (uint8_t)a[0]; size_t n = a.size();
		for (unsigned k = 0; k < sx_bound(2, 3); ++k) switch (sx_choose(8, "op")) {
		case 0: fill(b); break;
		case 1: b = a; break;
		case 2: b = std::move(a); a = C(); a.push_back(first); break;
		case 3: a.resize(1); a.shrink_to_fit(); break;
		case 4: swap(a, b); if (a.empty()) a.push_back(first); break;
		case 5: a.reserve(a.capacity() + 40); break;
		case 6: a.erase(a.begin() + 1, a.end()); break;
		case 7: { C c(a); sx_check(c == a, "a copy"); } break;
		}
		(void)n; sx_check(!a.empty(), "content"); sx_cover("history");
	}
	sx_check(sx_live_blocks() == live, "everything is given back"); sx_wiped_on_free(false);
}
SX_CASE(vectors) { container<svec<uint8_t>>(); }
SX_CASE(wide_vectors) { container<svec<uint32_t>>(); }
SX_CASE(strings) { container<sstr>(); }
struct secret { uint8_t k[24]; };
SX_CASE(elements)
{
	sx_wiped_on_free(true); { svec<secret> v; for (unsigned i = 0, n = sx_choose(4, "n"); i < n; ++i) { secret s; sx_symbolic(&s, sizeof(s), "secret"); v.push_back(s); } if (v.size() == 3) sx_cover("three"); sanitizing_allocator<uint16_t> o; sanitizing_allocator<secret> r(o); secret* p = r.allocate(2); sx_symbolic(p, 48, "secret"); r.deallocate(p, 2); } sx_wiped_on_free(false);
}
template <size_t N>
static void blob()
{
	sx_wiped_on_free(true);
	auto b = new sanitizing_blob<N>; bool z = true; for (size_t i = 0; i < N; ++i) z &= b->m_data[i] == 0; sx_check(z, "blobs begin as zeros");
	sx_symbolic(b->m_data, N, "secret"); auto c = sx_choose(2, "copy") ? new sanitizing_blob<N>(*b) : nullptr; if (c) { sx_check(sx_memeq(c->m_data, b->m_data, N), "copies"); *b = *c; sx_cover("copied"); }
	delete b; delete c; sx_wiped_on_free(false);
}
SX_CASE(blobs) { switch (sx_choose(4, "size")) { case 0: blob<1>(); break; case 1: blob<7>(); break; case 2: blob<16>(); break; case 3: blob<37>(); break; } sx_cover("blob"); }
// handles: every one obtained is closed exactly once
static struct ledger { unsigned next = 1, opened = 0; int closed[40]; bool refuse = false; } L;
struct traits
{
	static constexpr int invalid_handle = 0;
	static void close(int h) { sx_check(h > 0 && (unsigned)h < L.next, "only handles are closed"); sx_check(++L.closed[h] == 1, "closed once"); }
	static int duplicate(int h, bool = false) { sx_check(h > 0 && (unsigned)h < L.next && !L.closed[h], "live handles are duplicated"); if (L.refuse) throw system_error(EMFILE, system_category()); return fresh(); }
	static int fresh() { sx_check(L.next < 40, "harness"); L.closed[L.next] = 0; return L.next++; }
};
typedef basic_sys_object<int, traits> object;
SX_CASE(handles)
{
	L = ledger(); {
	object o[2]; unsigned held[2] = {};
	auto consistent = [&]() { unsigned n = 0; for (int i = 0; i < 2; ++i) { sx_check(o[i] ? o[i].get() > 0 && !L.closed[o[i].get()] : o[i].get() == 0, "an owner holds a live handle or none"); n += (bool)o[i]; } sx_check(!o[0] || o[0].get() != o[1].get(), "no handle has two owners"); unsigned open = 0; for (unsigned h = 1; h < L.next; ++h) open += !L.closed[h]; sx_check(open == n, "no handle is lost"); };
	for (unsigned k = 0; k < sx_bound(4, 5); ++k) {
		unsigned a = sx_choose(2, "a"); object &x = o[a], &y = o[1 - a]; int was = x.get(), other = y.get();
		switch (sx_choose(8, "op")) {
		case 0: x = object(traits::fresh()); sx_check(x, "taken"); break;
		case 1: x = y; sx_check((bool)x == (other != 0) && y.get() == other, "copied"); break;
		case 2: x = std::move(y); sx_check(x.get() == other && !y, "moved"); sx_cover("moved"); break;
		case 3: x.close(); sx_check(!x, "closed"); break;
		case 4: { object t(std::move(x)); sx_check(t.get() == was && !x, "moved out"); break; }
		case 5: { object t(x); sx_check((bool)t == (was != 0) && (!t || t.get() != was), "duplicated"); y = t; break; }
		case 6: { object& self = x; if (sx_choose(2, "copy")) x = self; else x = std::move(self); sx_check(x.get() == was, "itself"); sx_cover("itself"); break; }
		case 7: { L.refuse = true; bool threw = false; try { if (sx_choose(2, "construct")) { object t(y); } else x = y; } catch (const system_error&) { threw = true; } L.refuse = false; sx_check(threw == (other != 0), "refusal is reported"); if (threw) { sx_check(x.get() == was && y.get() == other, "nothing changed"); sx_cover("refused"); } break; }
		}
		consistent();
	} (void)held; }
	for (unsigned h = 1; h < L.next; ++h) sx_check(L.closed[h] == 1, "every handle is closed once");
}
static int fake_result, fake_errno, fake_calls, fake_arg;
extern "C" int close(int h) { ++fake_calls; fake_arg = h; if (fake_result) errno = fake_errno; return fake_result; }
extern "C" int dup(int h) { ++fake_calls; fake_arg = h; if (fake_result < 0) errno = fake_errno; return fake_result; }
SX_CASE(system)
{
	int h = (int)sx_range(0, 100, "handle"); fake_errno = (int)sx_range(1, 40, "error"); fake_calls = 0; errno = 0;
	fake_result = sx_choose(2, "fails") ? -1 : 0; bool threw = false; int code = 0;
	{
		sys_object o(h); sx_check(o && o.get() == h, "owner");
		try { o.close(); } catch (const system_error& e) { threw = true; code = e.code().value(); }
		sx_check(fake_calls == 1 && fake_arg == h && !o, "closed once"); sx_check(threw == (fake_result && fake_errno != EBADF) && (!threw || code == fake_errno), "a failing close is reported"); o.close();
	}
	sx_check(fake_calls == 1, "and not again"); sx_cover(threw ? "close fails" : "closed");
	fake_result = sx_choose(2, "dup fails") ? -1 : 50; threw = false; fake_calls = 0; int got = -1;
	{ sys_object o(h); try { sys_object c(o); got = c.get(); sx_check(fake_calls == 1 && fake_arg == h, "duplicated"); fake_result = 0; } catch (const system_error& e) { threw = true; sx_check(e.code().value() == fake_errno, "dup"); } sx_check(threw == (got < 0) && (threw || got == 50), "duplicate"); fake_result = 0; }
	sx_check(fake_calls == (threw ? 2 : 3), "closed"); sx_cover(threw ? "dup fails" : "dup");
}
// pointers lent to functions that fill them
struct thing { int id; };
static struct { unsigned next = 0; int gone[16]; } P;
struct deleter { template <class T> void operator()(T* p) const { sx_check(p && ++P.gone[p->id] == 1, "released once"); } };
static thing pool[16];
static thing* make() { pool[P.next].id = P.next; P.gone[P.next] = 0; return &pool[P.next++]; }
// a callee gets a pointer to a pointer it owns while it runs
static int calls(thing** p, int was) { int r = was; switch (sx_choose(3, "callee")) { case 0: break; case 1: if (*p) deleter()(*p); *p = make(); r = (*p)->id; break; case 2: if (*p) deleter()(*p); *p = nullptr; r = -1; break; } return r; }
static int refs(thing*& p, int was) { return calls(&p, was); }
template <class T>
static void lending()
{
	P.next = 0; int now = -1;
	{
		unique_ptr<T, deleter> u; if (sx_choose(2, "initial")) { u.reset(make()); now = 0; }
		for (unsigned k = 0; k < 3; ++k) {
			switch (sx_choose(3, "how")) {
			case 0: now = calls(get_ptr(u), now); break;
			case 1: now = refs(get_ptr(u), now); break;
			case 2: { auto a = get_ptr(u); sx_check(!u, "lent"); auto b(std::move(a)); thing** pp = b; sx_check((*pp ? (*pp)->id : -1) == now, "the same"); break; }
			}
			sx_check((u ? u.get()->id : -1) == now, "the owner has what the callee left"); if (now >= 0) sx_check(!P.gone[now], "alive");
		}
		sx_cover(now < 0 ? "empty" : "owned");
	}
	for (unsigned i = 0; i < P.next; ++i) sx_check(P.gone[i] == 1, "each is released once");
}
SX_CASE(lending_one) { lending<thing>(); }
SX_CASE(lending_array) { lending<thing[]>(); }
SX_CASE(not_owning)
{
	thing t{ 3 }; { auto s = make_shared_no_delete(&t); auto c = s; sx_check(c.get() == &t, "shared"); } t.id = 4; { unique_ptr<thing, no_delete<thing>> u(&t); } { unique_ptr<thing[], no_delete<thing[]>> u(&t); } sx_check(t.id == 4, "left alone"); sx_cover("left alone");
}
// an action for the end of a scope
struct action { int id; int* log; int* alive; action(int i, int* l, int* a) : id(i), log(l), alive(a) { ++*alive; } action(const action& o) : id(o.id), log(o.log), alive(o.alive) { ++*alive; } ~action() { --*alive; } void operator()() const { sx_check(*alive > 0 && id == 7, "an action that still exists"); ++*log; } };
SX_CASE(scopes)
{
	int begun = 0, done = 0, alive = 0; uint32_t v = sx_u32("captured"), got = 0; bool init_throws = sx_choose(2, "init throws"), body_throws = sx_choose(2, "body throws"), lambda = sx_choose(2, "lambda"); bool threw = false;
	auto init = [&] { ++begun; sx_check(!done, "begins first"); if (init_throws) throw 1; };
	try {
		if (lambda) { uint32_t k = v; scoped_executor s([&begun, init_throws, &done] { ++begun; sx_check(!done, "begins first"); if (init_throws) throw 1; }, [k, &got, &done] { got = k; ++done; }); sx_check(begun == 1 && !done, "not before the end"); k = ~k; if (body_throws) throw 2; }
		else { scoped_executor s(std::move(init), action(7, &done, &alive)); sx_check(begun == 1 && !done, "not before the end"); if (body_throws) throw 2; }
	} catch (int) { threw = true; }
	sx_check(begun == 1 && done == !init_throws && threw == (init_throws || body_throws), "executed once"); sx_check(!lambda || init_throws || got == v, "with what it captured"); sx_check(!alive, "and released"); sx_cover(done ? "done" : "not begun");
}
