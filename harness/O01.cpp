// @bounds global progress: every section of size up to 2^15 anywhere below 2^15, local ranges of size 0..9 (monotone, thorough: 16) beginning anywhere below 2^15, every position; histories of 4 calls on the switcher and on timeout and lazy progress with arbitrary clock advances; aggregation: 3 workers, histories of 4 calls with arbitrary ranges and positions, attach and detach anywhere; 2 threads of 2 reports each, every schedule with up to 2 (thorough 3) preemptions
// @outside products that overflow the type; more workers, calls and preemptions
// @threads
// @assume positions lie in the announced range; the host is called back by the reporting thread only
#include "common.h"
#include <stdex/progress.hpp>
#include <memory>
#include <thread>
using namespace stdex;
typedef int64_t T;
struct host : progress<T> {
	enum { TEXT = 1, RANGE, SET, SHOW };
	struct call { int k; T a, b; const char* t; } log[32]; unsigned n = 0; bool want_cancel = false; int in = 0;
	void put(int k, T a, T b, const char* t) { sx_check(n < 32, "calls"); log[n++] = { k, a, b, t }; }
	virtual void set_text(const char* m) override { put(TEXT, 0, 0, m); }
	virtual void set_range(T s, T e) override { put(RANGE, s, e, nullptr); }
	virtual void set(T v) override { put(SET, v, 0, nullptr); }
	virtual void show(bool s) override { put(SHOW, s, 0, nullptr); }
	virtual bool cancel() override { return want_cancel; }
	bool last(int k, T a, T b = 0) const { return n && log[n - 1].k == k && log[n - 1].a == a && log[n - 1].b == b; }
};
static T num(const char* what) { return (T)sx_range(0, 1 << 15, what); }
SX_CASE(scaling)
{
	host h; global_progress<T> g(&h);
	T gs = num("start"), ge = num("end"); g.set_global_range(gs, ge); sx_check(h.n == 1 && h.last(host::RANGE, gs, ge), "the whole range is announced");
	T ss = num("section start"), sn = num("section size"), ls = num("local start") - 1000, ln = (T)sx_choose(10, "local size"), v = (T)sx_range(0, 15, "position"); sx_assume(v <= ln);
	g.set_section_range(ss, ss + sn); g.set_range(ls, ls + ln); sx_check(h.n == 1, "a section's range is its own");
	g.set(ls + v);
	if (h.n == 1) { sx_check(ln == 0, "a position of a range that is not empty is reported"); sx_cover("empty"); return; }
	sx_check(h.n == 2 && h.log[1].k == host::SET, "one report"); T r = h.log[1].a;
	sx_check(r >= ss && r <= ss + sn, "inside the section");
	if (v == 0) sx_check(r == ss, "begin"); if (v == ln) sx_check(r == ss + sn, "end");
	T d = r - ss; sx_check(d * ln <= v * sn && v * sn < (d + 1) * ln, "in proportion");
	sx_cover("reported");
}
SX_CASE(scaling_monotone)
{
	// the next position never goes back
	host h; global_progress<T> g(&h); T sn = (T)sx_range(0, 1 << 15, "section size"), ln = (T)sx_choose(sx_bound(10, 17), "local size"), v = (T)sx_range(0, 16, "position"); sx_assume(v < ln);
	g.set_section_range(7, 7 + sn); g.set_range(3, 3 + ln); g.set(3 + v); g.set(4 + v);
	sx_check(h.n == 2 && h.log[0].a <= h.log[1].a, "monotone"); sx_cover("two reports");
}
// every notification reaches the host, and none when there is no host
static void forwards(progress<T>& p, host* h, host* other)
{
	unsigned n = h ? h->n : 0, on = other->n; static const char text[] = "t";
	switch (sx_choose(3, "call")) {
	case 0: p.set_text(text); if (h) sx_check(h->n == n + 1 && h->last(host::TEXT, 0) && h->log[n].t == text, "text"); break;
	case 1: { bool b = sx_choose(2, "show"); p.show(b); if (h) sx_check(h->n == n + 1 && h->last(host::SHOW, b), "show"); break; }
	case 2: { bool c = sx_choose(2, "cancel"); if (h) h->want_cancel = c; other->want_cancel = true; sx_check(p.cancel() == (h && c), "cancel"); if (h) h->want_cancel = false, sx_check(h->n == n, "no report"); break; }
	}
	sx_check(other->n == on, "only the host hears of it");
}
SX_CASE(attaching)
{
	host a, b; host* cur = sx_choose(2, "host") ? &a : nullptr; global_progress<T> g(cur);
	for (unsigned k = 0; k < sx_bound(3, 4); ++k) switch (sx_choose(4, "op")) {
	case 0: cur = sx_choose(2, "which") ? &a : &b; g.attach(cur); break;
	case 1: sx_check(g.detach() == cur, "the old host"); cur = nullptr; sx_cover("detached"); break;
	case 2: { unsigned an = a.n, bn = b.n; g.set_global_range(1, 9); if (cur) sx_check(cur->last(host::RANGE, 1, 9), "range"); sx_check(a.n + b.n == an + bn + (cur != nullptr), "range"); g.set_section_range(2, 4); g.set_range(0, 2); g.set(1); if (cur) sx_check(cur->last(host::SET, 3), "position"); sx_check(a.n + b.n == an + bn + 2 * (cur != nullptr), "position"); break; }
	case 3: forwards(g, cur, cur == &a ? &b : &a); sx_cover("forwarded"); break;
	}
}
SX_CASE(switching)
{
	host h; progress<T>* place = sx_choose(2, "host") ? &h : nullptr; progress<T>* before = place; host none;
	{
		progress_switcher<T> s(place); sx_check(place == &s, "the switcher takes the place");
		if (sx_choose(2, "nested")) { progress_switcher<T> t(place); sx_check(place == &t, "nested"); t.set_global_range(0, 10); t.set_section_range(0, 5); t.set_range(0, 2); s.set_section_range(10, 20); t.set(1); if (before) sx_check(h.n == 1 && h.last(host::SET, 12), "two scales"); sx_cover("nested"); }
		sx_check(place == &s, "restored"); forwards(*place, before ? &h : nullptr, &none);
	}
	sx_check(place == before, "the host is back"); sx_cover(before ? "host" : "no host");
}
SX_CASE(timing_out)
{
	host h, none; bool hosted = sx_choose(2, "host"); uint64_t t = sx_range(0, 1u << 30, "timeout"), begin = sx_now();
	timeout_progress<T> p(std::chrono::nanoseconds(t), hosted ? &h : nullptr);
	for (unsigned k = 0; k < 3; ++k) {
		sx_advance(sx_range(0, 1u << 30, "advance"));
		bool c = sx_choose(2, "cancel"); h.want_cancel = c; bool late = sx_now() - begin > t;
		sx_check(p.cancel() == ((hosted && c) || late), "cancelled by the host or past the deadline"); h.want_cancel = false;
	}
	unsigned n = h.n; p.set_range(3, 8); p.set(5); p.set_text(nullptr); p.show(true);
	if (hosted) sx_check(h.n == n + 4 && h.log[n].k == host::RANGE && h.log[n].a == 3 && h.log[n].b == 8 && h.log[n + 1].k == host::SET && h.log[n + 1].a == 5 && h.log[n + 2].k == host::TEXT && h.log[n + 3].k == host::SHOW, "forwarded"); else sx_check(h.n == n, "no host");
	sx_cover(hosted ? "host" : "no host");
}
struct lazy : lazy_progress<T> { unsigned n = 0; T shown = -1; uint64_t at = 0; lazy(uint64_t t) : lazy_progress<T>(std::chrono::nanoseconds(t)) {} virtual void do_set() override { ++n; shown = m_value; at = sx_now(); } };
SX_CASE(lazily)
{
	uint64_t t = sx_range(1, 1u << 30, "timeout"); lazy p(t); p.set_range(10, 20); p.set(10); sx_check(p.n == 1 && p.shown == 10, "the beginning is shown at once");
	for (unsigned k = 0; k < 3; ++k) {
		sx_advance(sx_range(0, 1u << 30, "advance")); T v = 10 + (T)sx_choose(3, "position") * 5; unsigned n = p.n; T was = p.shown; uint64_t since = sx_now() - p.at;
		p.set(v); bool ends = v == 10 || v == 20;
		sx_check((p.n != n) == (ends || (v != was && since >= t)), "shown at the ends, and otherwise when it changed and enough time has passed"); sx_check(p.n <= n + 1, "once");
		if (p.n != n) sx_check(p.shown == v, "the position shown");
		sx_cover(p.n == n ? "held back" : ends ? "end" : "shown");
	}
}
SX_CASE(workers)
{
	unsigned m = sx_choose(3, "workers") + 1; host a, b; host* cur = sx_choose(2, "host") ? &a : nullptr; aggregate_progress<T> g(m, cur);
	T s[3] = {}, e[3] = {}, v[3] = {}; auto sum = [&](T* x) { T r = 0; for (unsigned i = 0; i < m; ++i) r += x[i]; return r; };
	auto announced = [&](host* h, unsigned n) { sx_check(h->n == n + 2 && h->log[n].k == host::RANGE && h->log[n].a == sum(s) && h->log[n].b == sum(e) && h->log[n + 1].k == host::SET && h->log[n + 1].a == sum(v), "a new host learns the current state"); };
	if (cur) announced(cur, 0);
	for (unsigned k = 0; k < sx_bound(3, 4); ++k) {
		unsigned w = sx_choose(m, "worker"), an = a.n, bn = b.n;
		switch (sx_choose(5, "op")) {
		case 0: s[w] = num("start"); e[w] = s[w] + num("size"); g[w].set_range(s[w], e[w]); if (cur) sx_check(cur->last(host::RANGE, sum(s), sum(e)), "combined range"); sx_check(a.n + b.n == an + bn + (cur != nullptr), "one report"); break;
		case 1: v[w] = num("position"); g[w].set(v[w]); if (cur) sx_check(cur->last(host::SET, sum(v)), "combined position"); sx_check(a.n + b.n == an + bn + (cur != nullptr), "one report"); sx_cover("position"); break;
		case 2: { host* o = cur == &a ? &b : &a; forwards(g[w], cur, o); break; }
		case 3: { cur = sx_choose(2, "which") ? &a : &b; unsigned n = cur->n; g.attach(cur); announced(cur, n); sx_cover("attached"); break; }
		case 4: sx_check(g.detach() == cur, "the old host"); cur = nullptr; break;
		}
	}
}
// reports of concurrent workers: none is lost, the last one the host hears is the combination of the last positions
static aggregate_progress<T>* G;
static void worker(void* p)
{
	unsigned w = (unsigned)(size_t)p; progress<T>& me = (*G)[w]; if (w == 0) me.set_range(0, 10); me.set(3 + w);  if (w == 1) me.set(7); 
}
SX_CASE(concurrent)
{
	sx_preempt_bound(sx_bound(2, 3)); host h; { aggregate_progress<T> g(2, &h); G = &g;
	uint64_t t = sx_thread_create(worker, (void*)1); worker((void*)0); sx_thread_join(t);
	T sets = 0, lastv = -1, high = 0; bool mono = true; for (unsigned i = 0; i < h.n; ++i) if (h.log[i].k == host::SET) { ++sets; lastv = h.log[i].a; if (lastv < high) mono = false; high = lastv; }
	sx_check(sets == 4, "every report is delivered"); sx_check(lastv == 3 + 7, "the last position heard is the combined one"); sx_check(mono, "growing positions are heard growing"); }
	sx_cover("concurrent");
}
