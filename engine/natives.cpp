// LLVM intrinsics, the C/C++ run-time entry points the code calls, and the harness interface.
#include "exec.h"
#include <cmath>
#include <cstdio>
#include <algorithm>
#include <functional>

typedef std::vector<Val> Args;
typedef std::function<void(Exec&, State&, const Inst&, Args&)> Nat;
static std::unordered_map<std::string, Nat> nat;

static Frame& top(State& s) { return s.th[s.cur].fr.back(); }
static unsigned argW(const Inst& I, size_t k) { return k < I.opSlots.size() ? I.opSlots[k] >> 8 : 64; }
static void done(Exec& x, State& s, const Inst& I) { x.advance(s, top(s)); }
static void ret(Exec& x, State& s, const Inst& I, Val v) {
	if (I.dst >= 0) {
		if (!v.e && I.rw < 64) v.v &= (1ull << I.rw) - 1;
		top(s).regs[I.dst] = v;
	}
	done(x, s, I);
}
static uint64_t C(Exec& x, State& s, const Inst& I, Args& a, size_t k, const char* what = "an argument") {
	if (k >= a.size()) return 0;
	uint64_t v = x.conc(s, a[k], a[k].e ? a[k].e->w : 64, what);
	a[k] = VC(v);
	return v;
}
static std::string unhex(const std::string& h) { std::string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16); return r; }
static bool isDbgLifetime(const std::string& n) { return n.find("llvm.dbg") == 0 || n.find("llvm.lifetime") == 0; }

// ------------------------------------------------------------- intrinsics
static E ctz(E x, bool lead) {
	unsigned w = x->w;
	E r = mkConst(w, w);
	// build from the far end so that the nearest bit wins
	for (unsigned k = 0; k < w; k++) { unsigned bit = lead ? k : w - 1 - k; r = mkITE(mkExtract(x, bit, 1), mkConst(lead ? w - 1 - bit : bit, w), r); }
	return r;
}
static bool starts(const std::string& a, const char* b) { return a.compare(0, strlen(b), b) == 0; }

bool Exec::intrinsic(State& s, const Inst& I, const std::string& n, std::vector<Val>& a) {
	unsigned w = argW(I, 0);
	auto two = [&](std::function<E(E, E)> fn) {
		unsigned ns = I.nslots ? I.nslots : 1;
		for (unsigned k = 0; k < ns; k++) top(s).regs[I.dst + k] = fromE(fn(toE(a[k], w), toE(a[ns + k], w)));
		done(*this, s, I); return true;
	};
	auto one = [&](std::function<E(E)> fn) {
		for (unsigned k = 0; k < I.nslots; k++) top(s).regs[I.dst + k] = fromE(fn(toE(a[k], w)));
		done(*this, s, I); return true;
	};
	if (starts(n, "llvm.memcpy") || starts(n, "llvm.memmove")) {
		uint64_t len = C(*this, s, I, a, 2, "a copy size");
		if (!len) { done(*this, s, I); return true; }
		uint64_t d = C(*this, s, I, a, 0, "an address"), sr = C(*this, s, I, a, 1, "an address");
		if (starts(n, "llvm.memcpy") && d != sr && ((d < sr && sr - d < len) || (sr < d && d - sr < len))) violate(s, "memory", "memcpy between overlapping areas");
		copyBytes(s, d, sr, len);
		done(*this, s, I); return true;
	}
	if (starts(n, "llvm.memset")) {
		uint64_t len = C(*this, s, I, a, 2, "a fill size");
		if (!len) { done(*this, s, I); return true; }
		uint64_t d = C(*this, s, I, a, 0, "an address");
		Obj* o = access(s, d, len, true, "memory fill");
		uint64_t off = d - o->base;
		if (!a[1].e) { memset(o->data + off, (int)a[1].v, len); if (o->tag) memset(o->tag + off, 0, len); }
		else for (uint64_t i = 0; i < len; i++) storeByte(s, d + i, mkTrunc(a[1].e, 8));
		done(*this, s, I); return true;
	}
	if (starts(n, "llvm.umin")) return two([](E x, E y) { return mkITE(mkBin(O_ULT, x, y), x, y); });
	if (starts(n, "llvm.umax")) return two([](E x, E y) { return mkITE(mkBin(O_ULT, y, x), x, y); });
	if (starts(n, "llvm.smin")) return two([](E x, E y) { return mkITE(mkBin(O_SLT, x, y), x, y); });
	if (starts(n, "llvm.smax")) return two([](E x, E y) { return mkITE(mkBin(O_SLT, y, x), x, y); });
	if (starts(n, "llvm.abs")) { for (unsigned k = 0; k < I.nslots; k++) { E x = toE(a[k], w); top(s).regs[I.dst + k] = fromE(mkITE(mkExtract(x, w - 1, 1), mkBin(O_SUB, mkConst(0, w), x), x)); } done(*this, s, I); return true; }
	if (starts(n, "llvm.usub.sat")) return two([w](E x, E y) { return mkITE(mkBin(O_ULT, x, y), mkConst(0, w), mkBin(O_SUB, x, y)); });
	if (starts(n, "llvm.uadd.sat")) return two([w](E x, E y) { E r = mkBin(O_ADD, x, y); return mkITE(mkBin(O_ULT, r, x), mkConst(maskw(w), w), r); });
	if (starts(n, "llvm.bswap")) return one([w](E x) { E r = mkExtract(x, 0, 8); for (unsigned k = 8; k < w; k += 8) r = mkConcat(r, mkExtract(x, k, 8)); return r; });
	if (starts(n, "llvm.bitreverse")) return one([w](E x) { E r = mkExtract(x, 0, 1); for (unsigned k = 1; k < w; k++) r = mkConcat(r, mkExtract(x, k, 1)); return r; });
	if (starts(n, "llvm.ctlz")) return one([](E x) { return ctz(x, true); });
	if (starts(n, "llvm.cttz")) return one([](E x) { return ctz(x, false); });
	if (starts(n, "llvm.ctpop")) return one([w](E x) { E r = mkConst(0, w); for (unsigned k = 0; k < w; k++) r = mkBin(O_ADD, r, mkZExt(mkExtract(x, k, 1), w)); return r; });
	if (starts(n, "llvm.fshl") || starts(n, "llvm.fshr")) {
		bool left = starts(n, "llvm.fshl");
		E x = toE(a[0], w), y = toE(a[1], w), z = toE(a[2], w);
		E sh = mkBin(O_UREM, z, mkConst(w, w)), inv = mkBin(O_SUB, mkConst(w, w), sh);
		E r;
		if (left) r = mkITE(mkEq(sh, mkConst(0, w)), x, mkBin(O_OR, mkBin(O_SHL, x, sh), mkBin(O_LSHR, y, inv)));
		else r = mkITE(mkEq(sh, mkConst(0, w)), y, mkBin(O_OR, mkBin(O_SHL, x, inv), mkBin(O_LSHR, y, sh)));
		ret(*this, s, I, fromE(r)); return true;
	}
	auto ovf = [&](E r, E o) { top(s).regs[I.dst] = fromE(r); top(s).regs[I.dst + 1] = fromE(o); done(*this, s, I); return true; };
	if (n.find(".with.overflow") != std::string::npos) {
		E x = toE(a[0], w), y = toE(a[1], w);
		if (starts(n, "llvm.uadd")) { E r = mkBin(O_ADD, x, y); return ovf(r, mkBin(O_ULT, r, x)); }
		if (starts(n, "llvm.usub")) return ovf(mkBin(O_SUB, x, y), mkBin(O_ULT, x, y));
		if (w > 64) throw Incomplete{ "wide overflow arithmetic" };
		unsigned W = w * 2;
		bool sg = n[5] == 's';
		E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W);
		E R = mkBin(n.find("mul") != std::string::npos ? O_MUL : n.find("add") != std::string::npos ? O_ADD : O_SUB, X, Y);
		E r = mkTrunc(R, w);
		return ovf(r, mkNe(R, sg ? mkSExt(r, W) : mkZExt(r, W)));
	}
	if (starts(n, "llvm.eh.typeid.for")) { ret(*this, s, I, VC((a[0].v - BASE) / SLOT + 2)); return true; }
	if (starts(n, "llvm.expect") || starts(n, "llvm.launder") || starts(n, "llvm.strip") || starts(n, "llvm.ssa.copy")) { ret(*this, s, I, a[0]); return true; }
	if (starts(n, "llvm.objectsize")) { ret(*this, s, I, VC(~0ull)); return true; }
	if (starts(n, "llvm.is.constant")) { ret(*this, s, I, VC(0)); return true; }
	if (starts(n, "llvm.trap") || starts(n, "llvm.ubsantrap")) { violate(s, "ub", "trap"); }
	if (starts(n, "llvm.va_start")) {
		uint64_t p = a[0].v; Frame& f = top(s);
		uint64_t va = f.va;
		storeLeaf(s, p, VC(48), 32, 4, false); storeLeaf(s, p + 4, VC(176), 32, 4, false); storeLeaf(s, p + 8, VC(va), 64, 8, false); storeLeaf(s, p + 16, VC(0), 64, 8, false);
		done(*this, s, I); return true;
	}
	if (starts(n, "llvm.va_copy")) { copyBytes(s, a[0].v, a[1].v, 24); done(*this, s, I); return true; }
	if (starts(n, "llvm.va_end") || starts(n, "llvm.stackrestore") || starts(n, "llvm.prefetch") || starts(n, "llvm.assume") || isDbgLifetime(n) || starts(n, "llvm.experimental.noalias")) { done(*this, s, I); return true; }
	if (starts(n, "llvm.x86.sse2.pause")) {
		auto& T = s.th[s.cur];
		done(*this, s, I);
		if (s.mt) { T.progress = s.syncOps; T.st = T_YIELD; block(s); }
		return true;
	}
	if (starts(n, "llvm.stacksave")) { ret(*this, s, I, VC(0)); return true; }
	if (starts(n, "llvm.fabs")) return one([w](E x) { return mkBin(O_AND, x, mkConst(maskw(w - 1), w)); });
	if (starts(n, "llvm.threadlocal.address")) { ret(*this, s, I, a[0]); return true; }
	static const std::map<std::string, double (*)(double)> fm = { { "llvm.floor.f64", ::floor }, { "llvm.ceil.f64", ::ceil }, { "llvm.rint.f64", ::rint }, { "llvm.round.f64", ::round }, { "llvm.trunc.f64", ::trunc }, { "llvm.sqrt.f64", ::sqrt } };
	auto it = fm.find(n);
	if (it != fm.end()) { uint64_t v = C(*this, s, I, a, 0); double d; memcpy(&d, &v, 8); d = it->second(d); memcpy(&v, &d, 8); ret(*this, s, I, VC(v)); return true; }
	if (starts(n, "llvm.fmuladd.f64") || starts(n, "llvm.fma.f64")) { double d[3]; for (int k = 0; k < 3; k++) { uint64_t v = C(*this, s, I, a, k); memcpy(&d[k], &v, 8); } double r = n[8] == 'u' ? d[0] * d[1] + d[2] : fma(d[0], d[1], d[2]); uint64_t v; memcpy(&v, &r, 8); ret(*this, s, I, VC(v)); return true; }
	if (starts(n, "llvm.fmuladd.f32")) { float d[3]; for (int k = 0; k < 3; k++) { uint32_t v = (uint32_t)C(*this, s, I, a, k); memcpy(&d[k], &v, 4); } float r = d[0] * d[1] + d[2]; uint32_t v; memcpy(&v, &r, 4); ret(*this, s, I, VC(v)); return true; }
	return false;
}

// ------------------------------------------------------------- helpers
static void callRt(Exec& x, State& s, const char* name, const Args& a) {
	auto it = M.fbyName.find(name);
	if (it == M.fbyName.end()) throw Incomplete{ std::string("run-time function missing: ") + name };
	x.pushFrame(s, it->second, a, nullptr);
}
static void doAlloc(Exec& x, State& s, const Inst& I, Args& a, ObjKind k, bool nothrow, size_t sizeArg = 0) {
	uint64_t n = C(x, s, I, a, sizeArg, "an allocation size");
	if (n > (64ull << 20)) {
		if (k == K_MALLOC || nothrow) { ret(x, s, I, VC(0)); return; }
		callRt(x, s, "sx_throw_bad_alloc", {});
		return;
	}
	ret(x, s, I, VC(x.alloc(s, n, k, true)));
}
static void doFree(Exec& x, State& s, const Inst& I, Args& a, ObjKind k) {
	uint64_t p = C(x, s, I, a, 0, "a pointer to free");
	if (p) x.release(s, p, k);
	done(x, s, I);
}
static ExcRec* findExc(State& s, uint64_t a) { for (auto& e : s.exc) if (e.addr == a) return &e; return nullptr; }
static void addInput(Exec& x, State& s, const std::string& name, const std::vector<uint32_t>& syms) {
	s.inputs.push_back({ name, std::make_shared<std::vector<uint32_t>>(syms) });
}
static uint32_t symId(E e) { return (uint32_t)e->c; }
// a fresh input value of w bits; in replay mode the recorded constant
static Val freshVal(Exec& x, State& s, unsigned w, const std::string& name, const std::string& kind = "") {
	size_t at = s.inputs.size();
	E e = x.newSym(s, w, name + kind, false);
	addInput(x, s, name, { symId(e) });
	if (g_cfg.replay) {
		uint64_t v = 0; if (at < g_cfg.rin.size()) { std::string b = unhex(g_cfg.rin[at].second); for (size_t k = 0; k < b.size() && k < 8; k++) v |= (uint64_t)(uint8_t)b[k] << (8 * k); }
		auto m = std::make_shared<Model>(*s.model); m->set(symId(e), v); x.setModel(s, m);
		return VC(v);
	}
	return Val{ 0, 0, e };
}
static Mutex& mx(State& s, uint64_t a) { return s.mtx[a]; }
static void lockIt(State& s, uint64_t a) { auto& m = mx(s, a); m.owner = s.cur; m.depth = 1; s.th[s.cur].vc.join(m.vc); s.syncOps++; }
static void unlockIt(State& s, uint64_t a) { auto& m = mx(s, a); m.owner = -1; m.depth = 0; auto& T = s.th[s.cur]; m.vc = T.vc; T.vc.c[s.cur]++; s.syncOps++; }

static void condWait(Exec& x, State& s, const Inst& I, Args& a, bool timed, Val deadline) {
	auto& T = s.th[s.cur];
	uint64_t c = a[0].v, m = a[1].v;
	if (T.st == T_CONDLOCK) { // second phase: we have been woken and the mutex is free
		T.st = T_RUN;
		lockIt(s, m);
		bool to = T.timedOut; T.timedOut = false;
		ret(x, s, I, VC(to ? 110 : 0));
		return;
	}
	if (timed && x.decide(s, mkBin(O_ULE, x.toE(deadline, 64), x.toE(s.now, 64)))) { if (x.schedPoint(s)) return; ret(x, s, I, VC(110)); return; }
	if (x.schedPoint(s)) return;
	auto& mu = mx(s, m);
	if (mu.owner != s.cur) x.violate(s, "sync", "waiting on a condition without holding its mutex");
	unlockIt(s, m);
	auto& T2 = s.th[s.cur];
	T2.st = T_COND; T2.waitOn = c; T2.condMutex = m; T2.timed = timed; T2.timedOut = false; T2.deadline = deadline;
	x.block(s);
}
static Val rdTimespec(Exec& x, State& s, uint64_t p) {
	E sec = x.toE(x.loadLeaf(s, p, 64, 8, false), 64), ns = x.toE(x.loadLeaf(s, p + 8, 64, 8, false), 64);
	E bn = mkConst(1000000000, 64);
	// the usual split of one count of nanoseconds: ns = t - sec * 1e9 (or t % 1e9)
	E ms = mkBin(O_MUL, sec, mkConst((u128)0 - 1000000000, 64));
	std::vector<E> todo{ ns }, rest; bool hit = false;
	while (!todo.empty()) {
		E e = todo.back(); todo.pop_back();
		if (e->op == O_ADD) { todo.push_back(e->a[0]); todo.push_back(e->a[1]); }
		else if (!hit && e == ms) hit = true;
		else rest.push_back(e);
	}
	if (hit) { E t = mkConst(0, 64); for (E e : rest) t = mkBin(O_ADD, t, e); return x.fromE(t); }
	if (ns->op == O_SUB && ns->a[1] == mkBin(O_MUL, sec, bn)) return x.fromE(ns->a[0]);
	if (getenv("SXE_TS")) fprintf(stderr, "sec %s\nns %s\n", exprStr(sec).c_str(), exprStr(ns).c_str());
	return x.fromE(mkBin(O_ADD, mkBin(O_MUL, sec, bn), ns));
}
static bool g_init = false;
static void def(const char* n, Nat f) { nat[n] = f; }
#define N(name) def(name, [](Exec& x, State& s, const Inst& I, Args& a)
static void initNat() {
	g_init = true;
	// --- memory
	for (auto n : { "_Znwm", "_ZnwmSt11align_val_t" }) N(n) { doAlloc(x, s, I, a, K_NEW, false); });
	for (auto n : { "_Znam", "_ZnamSt11align_val_t" }) N(n) { doAlloc(x, s, I, a, K_NEWARR, false); });
	N("_ZnwmRKSt9nothrow_t") { doAlloc(x, s, I, a, K_NEW, true); });
	N("_ZnamRKSt9nothrow_t") { doAlloc(x, s, I, a, K_NEWARR, true); });
	for (auto n : { "_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t" }) N(n) { doFree(x, s, I, a, K_NEW); });
	for (auto n : { "_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t" }) N(n) { doFree(x, s, I, a, K_NEWARR); });
	N("malloc") { doAlloc(x, s, I, a, K_MALLOC, true); });
	N("free") { doFree(x, s, I, a, K_MALLOC); });
	N("calloc") {
		uint64_t n = C(x, s, I, a, 0) * C(x, s, I, a, 1);
		if (n > (64ull << 20)) { ret(x, s, I, VC(0)); return; }
		ret(x, s, I, VC(x.alloc(s, n, K_MALLOC, false)));
	});
	N("realloc") {
		uint64_t p = C(x, s, I, a, 0), n = C(x, s, I, a, 1, "an allocation size");
		if (n > (64ull << 20)) { ret(x, s, I, VC(0)); return; }
		uint64_t q = x.alloc(s, n, K_MALLOC, true);
		if (p) {
			Obj* o = s.mem.find(p);
			if (!o || o->base != p) x.violate(s, "memory", "realloc of an invalid pointer");
			if (o->freed) x.violate(s, "memory", "realloc of a freed block");
			x.copyBytes(s, q, p, std::min(n, o->size));
			x.release(s, p, K_MALLOC);
		}
		ret(x, s, I, VC(q));
	});
	for (auto n : { "memcpy", "memmove", "wmemcpy", "wmemmove" }) {
		bool wide = n[0] == 'w', cpy = std::string(n).find("cpy") != std::string::npos;
		def(n, [wide, cpy](Exec& x, State& s, const Inst& I, Args& a) {
			uint64_t len = C(x, s, I, a, 2, "a copy size") * (wide ? 4 : 1);
			uint64_t d = C(x, s, I, a, 0, "an address");
			if (len) {
				uint64_t sr = C(x, s, I, a, 1, "an address");
				if (cpy && d != sr && ((d < sr && sr - d < len) || (sr < d && d - sr < len))) x.violate(s, "memory", "memcpy between overlapping areas");
				x.copyBytes(s, d, sr, len);
			}
			ret(x, s, I, VC(d));
		});
	}
	N("memset") {
		uint64_t len = C(x, s, I, a, 2, "a fill size"), d = C(x, s, I, a, 0, "an address");
		if (len) {
			x.access(s, d, len, true, "memory fill");
			E b = mkTrunc(x.toE(a[1], 32), 8);
			for (uint64_t i = 0; i < len; i++) x.storeByte(s, d + i, b);
		}
		ret(x, s, I, VC(d));
	});
	for (auto n : { "memcmp", "bcmp" }) N(n) {
		uint64_t len = C(x, s, I, a, 2, "a compare size");
		if (!len) { ret(x, s, I, VC(0)); return; }
		uint64_t p = C(x, s, I, a, 0, "an address"), q = C(x, s, I, a, 1, "an address");
		x.access(s, p, len, false, "memory compare"); x.access(s, q, len, false, "memory compare");
		E r = mkConst(0, 32);
		for (uint64_t i = len; i-- > 0;) {
			E u = x.loadByte(s, p + i), v = x.loadByte(s, q + i);
			E eq = mkEq(u, v);
			if (isC(eq) && eq->c) continue;
			r = mkITE(eq, r, mkBin(O_SUB, mkZExt(u, 32), mkZExt(v, 32)));
		}
		ret(x, s, I, x.fromE(r));
	});
	// --- exceptions
	N("__cxa_allocate_exception") { uint64_t n = C(x, s, I, a, 0); uint64_t p = x.alloc(s, n ? n : 1, K_EXC, true); ret(x, s, I, VC(p)); });
	N("__cxa_free_exception") { uint64_t p = a[0].v; Obj* o = s.mem.find(p); Obj* t = new Obj(); t->base = p; t->size = o->size; t->kind = o->kind; t->freed = true; s.mem.put(t); done(x, s, I); });
	N("__cxa_throw") {
		s.exc.push_back({ a[0].v, a[1].v, a[2].v, 0, a[0].v, 1 });
		s.th[s.cur].inflight = a[0].v;
		x.unwind(s);
	});
	N("__cxa_begin_catch") {
		ExcRec* r = findExc(s, a[0].v);
		r->handlers = (r->handlers < 0 ? -r->handlers : r->handlers) + 1;
		s.th[s.cur].caught.push_back(a[0].v);
		ret(x, s, I, VC(r->adjusted));
	});
	N("__cxa_get_exception_ptr") { ExcRec* r = findExc(s, a[0].v); ret(x, s, I, VC(r->adjusted)); });
	N("__cxa_end_catch") {
		auto& T = s.th[s.cur];
		if (T.caught.empty()) throw Incomplete{ "__cxa_end_catch without a handler" };
		uint64_t ad = T.caught.back(); T.caught.pop_back();
		ExcRec* r = findExc(s, ad);
		if (r->handlers < 0) { r->handlers++; done(x, s, I); return; } // rethrown
		if (--r->handlers > 0) { done(x, s, I); return; }
		uint64_t dtor = r->dtor;
		if (!dtor) { done(x, s, I); return; }
		auto it = M.fbyAddr.find(dtor);
		if (it == M.fbyAddr.end() || !it->second->defined) { done(x, s, I); return; }
		x.pushFrame(s, it->second, { VC(ad) }, nullptr);
		top(s).special = 1; top(s).specialArg = ad;
	});
	N("__cxa_rethrow") {
		auto& T = s.th[s.cur];
		if (T.caught.empty()) x.violate(s, "terminate", "rethrow without an exception");
		ExcRec* r = findExc(s, T.caught.back());
		r->handlers = -r->handlers;
		T.inflight = T.caught.back();
		x.unwind(s);
	});
	for (auto n : { "_ZSt9terminatev", "abort", "__clang_call_terminate" }) N(n) { x.violate(s, "terminate", "the program terminates (std::terminate/abort)"); });
	N("__assert_fail") { x.violate(s, "terminate", "assertion in the code under test"); });
	for (auto n : { "exit", "_exit", "_Exit" }) N(n) { x.violate(s, "terminate", "the program exits"); });
	N("__cxa_pure_virtual") { x.violate(s, "terminate", "pure virtual call"); });
	N("__cxa_atexit") { ret(x, s, I, VC(0)); });
	N("__cxa_thread_atexit") { ret(x, s, I, VC(0)); });
	N("__cxa_guard_acquire") {
		uint64_t p = a[0].v; Val v = x.loadLeaf(s, p, 8, 1, false);
		if (v.v & 1) { ret(x, s, I, VC(0)); return; }
		ret(x, s, I, VC(1));
	});
	N("__cxa_guard_release") { x.storeLeaf(s, a[0].v, VC(1), 8, 1, false); done(x, s, I); });
	N("__cxa_guard_abort") { done(x, s, I); });
	N("__dynamic_cast") { // (ptr, src type, dst type, hint)
		uint64_t p = C(x, s, I, a, 0), dst = a[2].v;
		uint64_t vt = x.rd64(s, p);
		int64_t topoff = (int64_t)x.rd64(s, vt - 16);
		uint64_t ti = x.rd64(s, vt - 8);
		int64_t off = 0;
		if (x.isBase(ti, dst, off)) ret(x, s, I, VC(p + topoff + off)); else ret(x, s, I, VC(0));
	});
	// --- threads
	N("pthread_mutex_lock") {
		uint64_t m = C(x, s, I, a, 0);
		if (x.schedPoint(s)) return;
		auto& mu = mx(s, m);
		x.access(s, m, 40, false, "mutex", false);
		if (mu.owner < 0) { lockIt(s, m); ret(x, s, I, VC(0)); return; }
		Val kind = x.loadLeaf(s, m + 16, 32, 4, false);
		if (mu.owner == s.cur && !kind.e && kind.v == 1) { mu.depth++; ret(x, s, I, VC(0)); return; }
		auto& T = s.th[s.cur]; T.st = T_MUTEX; T.waitOn = m;
		x.block(s);
	});
	N("pthread_mutex_trylock") {
		uint64_t m = C(x, s, I, a, 0);
		if (x.schedPoint(s)) return;
		auto& mu = mx(s, m);
		if (mu.owner < 0) { lockIt(s, m); ret(x, s, I, VC(0)); return; }
		Val kind = x.loadLeaf(s, m + 16, 32, 4, false);
		if (mu.owner == s.cur && !kind.e && kind.v == 1) { mu.depth++; ret(x, s, I, VC(0)); return; }
		ret(x, s, I, VC(16));
	});
	N("pthread_mutex_unlock") {
		uint64_t m = C(x, s, I, a, 0);
		auto& mu = mx(s, m);
		x.access(s, m, 40, false, "mutex", false);
		if (mu.owner != s.cur) x.violate(s, "sync", "unlocking a mutex the thread does not hold");
		if (--mu.depth > 0) { ret(x, s, I, VC(0)); return; }
		unlockIt(s, m);
		ret(x, s, I, VC(0));
	});
	N("pthread_mutex_destroy") { uint64_t m = a[0].v; if (mx(s, m).owner >= 0) x.violate(s, "sync", "destroying a locked mutex"); s.mtx.erase(m); ret(x, s, I, VC(0)); });
	for (auto n : { "pthread_mutex_init", "pthread_cond_init", "pthread_cond_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy" }) N(n) { ret(x, s, I, VC(0)); });
	N("pthread_rwlock_rdlock") {
		uint64_t m = C(x, s, I, a, 0);
		if (x.schedPoint(s)) return;
		auto& mu = mx(s, m);
		x.access(s, m, 56, false, "mutex", false);
		if (mu.owner == s.cur) x.violate(s, "sync", "shared locking by the thread that owns the lock");
		if (mu.owner < 0) { mu.rd[s.cur]++; s.th[s.cur].vc.join(mu.vc); s.syncOps++; ret(x, s, I, VC(0)); return; }
		auto& T = s.th[s.cur]; T.st = T_MUTEX; T.reader = true; T.waitOn = m;
		x.block(s);
	});
	N("pthread_rwlock_wrlock") {
		uint64_t m = C(x, s, I, a, 0);
		if (x.schedPoint(s)) return;
		auto& mu = mx(s, m);
		x.access(s, m, 56, false, "mutex", false);
		if (mu.owner < 0 && !mu.readers()) { lockIt(s, m); s.th[s.cur].vc.join(mu.rvc); ret(x, s, I, VC(0)); return; }
		auto& T = s.th[s.cur]; T.st = T_MUTEX; T.reader = false; T.waitOn = m;
		x.block(s);
	});
	N("pthread_rwlock_unlock") {
		uint64_t m = C(x, s, I, a, 0);
		auto& mu = mx(s, m);
		x.access(s, m, 56, false, "mutex", false);
		if (mu.owner == s.cur) unlockIt(s, m);
		else if (mu.rd[s.cur]) { mu.rd[s.cur]--; auto& T = s.th[s.cur]; mu.rvc.join(T.vc); T.vc.c[s.cur]++; s.syncOps++; }
		else x.violate(s, "sync", "unlocking a lock the thread does not hold");
		ret(x, s, I, VC(0));
	});
	for (auto n : { "pthread_rwlock_init", "pthread_rwlock_destroy" }) N(n) { ret(x, s, I, VC(0)); });
	N("pthread_cond_wait") { condWait(x, s, I, a, false, VC(0)); });
	N("pthread_cond_timedwait") { condWait(x, s, I, a, true, rdTimespec(x, s, a[2].v)); });
	N("pthread_cond_clockwait") { condWait(x, s, I, a, true, rdTimespec(x, s, a[3].v)); });
	N("pthread_cond_signal") {
		if (x.schedPoint(s)) return;
		uint64_t c = a[0].v;
		std::vector<int> w;
		for (int t = 0; t < (int)s.th.size(); t++) if (s.th[t].st == T_COND && s.th[t].waitOn == c) w.push_back(t);
		s.syncOps++;
		if (!w.empty()) {
			int pick = w[0];
			if (w.size() > 1) {
				if (g_cfg.replay) { if (s.sched.size() < g_cfg.rsched.size()) pick = g_cfg.rsched[s.sched.size()]; s.sched.push_back((uint8_t)pick); }
				else {
					for (size_t k = 1; k < w.size(); k++) {
						State* n = new State(s); n->forks++; g_st.forks++; g_st.states++;
						n->sched.push_back((uint8_t)w[k]);
						n->th[w[k]].st = T_CONDLOCK;
						x.work.push_back(n);
						if (I.dst >= 0) n->th[n->cur].fr.back().regs[I.dst] = VC(0);
						x.advance(*n, n->th[n->cur].fr.back());
					}
					s.sched.push_back((uint8_t)pick);
				}
			}
			s.th[pick].st = T_CONDLOCK;
		}
		ret(x, s, I, VC(0));
	});
	N("pthread_cond_broadcast") {
		if (x.schedPoint(s)) return;
		for (auto& t : s.th) if (t.st == T_COND && t.waitOn == a[0].v) t.st = T_CONDLOCK;
		s.syncOps++;
		ret(x, s, I, VC(0));
	});
	N("sched_yield") {
		auto& T = s.th[s.cur];
		if (!s.mt) { ret(x, s, I, VC(0)); return; }
		T.progress = s.syncOps; T.st = T_YIELD;
		ret(x, s, I, VC(0));
		x.block(s);
	});
	N("sx_thread_create") { // (fn, arg) -> id
		if (s.th.size() >= (size_t)MAXT) throw Incomplete{ "too many threads" };
		auto it = M.fbyAddr.find(a[0].v);
		int me = s.cur;
		int id = (int)s.th.size();
		s.th.emplace_back();
		s.th[id].vc = s.th[me].vc; s.th[id].vc.c[id]++; s.th[me].vc.c[me]++;
		s.cur = id; x.pushFrame(s, it->second, { a[1] }, nullptr); s.cur = me;
		s.mt = true; s.syncOps++;
		ret(x, s, I, VC(id));
	});
	N("sx_thread_join") {
		uint64_t t = C(x, s, I, a, 0);
		if (t >= s.th.size()) x.violate(s, "sync", "joining a thread that does not exist");
		if (s.th[t].st != T_DONE) { auto& T = s.th[s.cur]; T.st = T_JOIN; T.waitOn = t; x.block(s); return; }
		s.th[s.cur].vc.join(s.th[t].vc);
		s.mt = x.alive(s) > 1;
		ret(x, s, I, VC(0));
	});
	N("sx_thread_self") { ret(x, s, I, VC(s.cur)); });
	N("sx_sched_point") { if (x.schedPoint(s)) return; s.syncOps++; done(x, s, I); });
	N("sx_preempt_bound") { g_cfg.preemptBound = (int)a[0].v; done(x, s, I); });
	N("sx_spurious") { g_cfg.spurious = (int)a[0].v; done(x, s, I); });
	N("sx_now") { ret(x, s, I, s.now); });
	N("sx_advance") { s.now = x.fromE(mkBin(O_ADD, x.toE(s.now, 64), x.toE(a[0], 64))); done(x, s, I); });
	// --- harness interface
	N("sx_symbolic") {
		uint64_t p = C(x, s, I, a, 0), n = C(x, s, I, a, 1);
		std::string name = x.cstr(s, C(x, s, I, a, 2));
		if (n) x.access(s, p, n, true, "input area");
		size_t at = s.inputs.size();
		std::vector<uint32_t> ids; std::string rb;
		if (g_cfg.replay && at < g_cfg.rin.size()) rb = unhex(g_cfg.rin[at].second);
		auto m = std::make_shared<Model>(*s.model);
		for (uint64_t i = 0; i < n; i++) {
			E e = x.newSym(s, 8, name + "[" + std::to_string(i) + "]", false);
			ids.push_back(symId(e));
			if (g_cfg.replay) { uint8_t b = i < rb.size() ? (uint8_t)rb[i] : 0; m->set(symId(e), b); x.storeByte(s, p + i, mkConst(b, 8)); }
			else x.storeByte(s, p + i, e);
		}
		if (g_cfg.replay) x.setModel(s, m);
		addInput(x, s, name, ids);
		done(x, s, I);
	});
	for (unsigned w : { 8, 16, 32, 64 }) def(("sx_u" + std::to_string(w)).c_str(), [w](Exec& x, State& s, const Inst& I, Args& a) {
		std::string name = x.cstr(s, C(x, s, I, a, 0));
		Val v = freshVal(x, s, w, name);
		ret(x, s, I, v);
	});
	N("sx_range") { // (lo, hi, name): 64-bit value in [lo, hi]
		uint64_t lo = C(x, s, I, a, 0), hi = C(x, s, I, a, 1);
		std::string name = x.cstr(s, C(x, s, I, a, 2));
		unsigned w = hi < 256 ? 8 : hi < 65536 ? 16 : hi < (1ull << 32) ? 32 : 64;
		Val v = freshVal(x, s, w, name, " [" + std::to_string(lo) + "," + std::to_string(hi) + "]"); // a symbol of its own for its range
		if (v.e) {
			g_symRange[v.e] = { lo, hi };
			E c = mkBin(O_AND, mkBin(O_ULE, mkConst(lo, w), v.e), mkBin(O_ULE, v.e, mkConst(hi, w)));
			auto m = std::make_shared<Model>(*s.model); m->set(symId(v.e), lo); x.setModel(s, m);
			addConstraint(s, c);
			v = x.fromE(mkZExt(v.e, 64));
		} else if (v.v < lo || v.v > hi) throw PathDone{};
		ret(x, s, I, v);
	});
	N("sx_choose") { // (n, name): every value below n, each on its own path
		uint64_t n = C(x, s, I, a, 0);
		std::string name = x.cstr(s, C(x, s, I, a, 1));
		if (n == 0) throw PathDone{};
		unsigned w = n <= 256 ? 8 : n <= 65536 ? 16 : 32;
		Val v = freshVal(x, s, w, name);
		if (v.e) {
			E c = mkBin(O_ULT, v.e, mkConst(n, w));
			if (n == (1u << w)) c = mkConst(1, 1);
			auto m = std::make_shared<Model>(*s.model); m->set(symId(v.e), 0); x.setModel(s, m);
			addConstraint(s, c);
			// fork one path per value, past this call
			for (uint64_t k = n; k-- > 1;) {
				E eq = mkEq(v.e, mkConst(k, w));
				auto mm = std::make_shared<Model>(*s.model); mm->set(symId(v.e), k);
				State* t = x.forkWith(s, eq, mm);
				if (I.dst >= 0) t->th[t->cur].fr.back().regs[I.dst] = VC(k);
				x.advance(*t, t->th[t->cur].fr.back());
			}
			addConstraint(s, mkEq(v.e, mkConst(0, w)));
			v = VC(0);
		} else if (v.v >= n) throw PathDone{};
		ret(x, s, I, v);
	});
	N("sx_concrete") { uint64_t v = C(x, s, I, a, 0, "a value"); ret(x, s, I, VC(v)); });
	N("sx_assume") {
		Val c = a[0];
		if (!c.e) { if (!(c.v & 1)) { g_st.assumeKilled++; throw PathDone{}; } done(x, s, I); return; }
		E e = mkTrunc(c.e, 1);
		if (x.ev(s, e)) addConstraint(s, e);
		else {
			std::shared_ptr<Model> m;
			if (!feasible(s, e, &m)) { g_st.assumeKilled++; throw PathDone{}; }
			addConstraint(s, e); x.setModel(s, m);
		}
		done(x, s, I);
	});
	N("sx_check") { // (cond, message)
		Val c = a[0];
		std::string msg = x.cstr(s, C(x, s, I, a, 1));
		if (!c.e) {
			g_st.assertsConc++;
			if (!(c.v & 1)) x.violate(s, "assert", msg);
			done(x, s, I); return;
		}
		g_st.assertsSym++;
		E e = mkTrunc(c.e, 1), ne = mkNot(e);
		if (e->uninit) x.checkUninit(s, e, "a checked result");
		std::shared_ptr<Model> m;
		if (feasible(s, ne, &m)) {
			x.violate(s, "assert", msg, m, false);
			if (x.ev(s, e)) addConstraint(s, e);
			else { std::shared_ptr<Model> m2; if (!feasible(s, e, &m2)) throw PathDone{}; addConstraint(s, e); x.setModel(s, m2); }
		}
		done(x, s, I);
	});
	N("sx_fail") { x.violate(s, "assert", x.cstr(s, C(x, s, I, a, 0))); });
	N("sx_cover") { std::string l = x.cstr(s, C(x, s, I, a, 0)); g_st.covers[l]++; done(x, s, I); });
	N("sx_same") {
		if (getenv("SXE_DBG")) {
			std::set<E> A, B; std::function<void(E, std::set<E>&)> walk = [&](E e, std::set<E>& o) { if (!e || !o.insert(e).second) return; for (int k = 0; k < 3; k++) walk(e->a[k], o); };
			for (int k = 0; k < 16; k++) { walk(x.loadByte(s, a[0].v + k), A); walk(x.loadByte(s, a[1].v + k), B); }
			Model m; for (uint32_t k = 0; k < 200; k++) m.set(k, (k * 7919 + 77) & 255);
			std::map<std::pair<int,u128>, E> val; std::map<E, u128> k2; Model m2; for (uint32_t k = 0; k < 200; k++) m2.set(k, (k * 104729 + 13 + k / 3) & 255); g_evgen++;
			for (E e : A) k2[e] = evalIn(e, m2); for (E e : B) k2[e] = evalIn(e, m2); g_evgen++;
			for (E e : A) if (!B.count(e) && e->w > 8) val[{e->w, evalIn(e, m) ^ k2[e] << 64}] = e;
			E best = nullptr, bo = nullptr;
			for (E e : B) if (!A.count(e) && e->w > 8) { auto it = val.find({e->w, evalIn(e, m) ^ k2[e] << 64}); if (it != val.end() && (!best || e->h + it->second->h < best->h + bo->h)) { best = e; bo = it->second; } }
			if (best) fprintf(stderr, "h %d %d\n%s\n%s\n\n", bo->h, best->h, exprStr(bo, 7).c_str(), exprStr(best, 7).c_str());
			g_evgen++;
		}
		uint64_t p = a[0].v, q = a[1].v, n = C(x, s, I, a, 2); bool same = true;
		for (uint64_t k = 0; k < n; k++) if (x.loadByte(s, p + k) != x.loadByte(s, q + k)) same = false;
		ret(x, s, I, VC(same));
	});
	N("sx_memeq") { // bool, without forking
		uint64_t p = C(x, s, I, a, 0), q = C(x, s, I, a, 1), n = C(x, s, I, a, 2, "a compare size");
		E r = mkConst(1, 1);
		if (n) {
			x.access(s, p, n, false, "checked data"); x.access(s, q, n, false, "checked data");
			bool symb = false;
			for (uint64_t i = 0; i < n; i++) { E u = x.loadByte(s, p + i), v = x.loadByte(s, q + i); symb |= u->op != O_CONST; r = mkBin(O_AND, r, mkEq(u, v)); }
			if (symb && r->op == O_CONST) g_st.assertsIdent++;
		}
		ret(x, s, I, x.fromE(r));
	});
	N("sx_live_blocks") { ret(x, s, I, VC((uint64_t)s.live)); });
	N("sx_wiped_on_free") { s.wiped = C(x, s, I, a, 0) & 1; done(x, s, I); });
	N("sx_readable") { // (p, n): is the whole area inside a live object?
		uint64_t p = C(x, s, I, a, 0), n = C(x, s, I, a, 1);
		Obj* o = s.mem.find(p);
		ret(x, s, I, VC(o && !o->freed && p - o->base <= o->size && n <= o->size - (p - o->base)));
	});
	N("sx_init_check") { // (p, n): every byte initialised
		uint64_t p = C(x, s, I, a, 0), n = C(x, s, I, a, 1);
		for (uint64_t i = 0; i < n; i++) { E e = x.loadByte(s, p + i); if (e->uninit && uninitMatters(s, mkEq(e, mkConst(x.ev(s, e), 8)))) x.violate(s, "uninit", "uninitialised bytes delivered as data"); }
		done(x, s, I);
	});
	N("sx_tier") { ret(x, s, I, VC((uint64_t)g_cfg.tier)); });
	N("sx_native") { ret(x, s, I, VC(0)); });
	N("sx_print") { if (g_cfg.trace) fprintf(stderr, "[print] %s\n", x.cstr(s, C(x, s, I, a, 0)).c_str()); done(x, s, I); });
	N("sx_printv") { if (g_cfg.trace) { std::string m = x.cstr(s, C(x, s, I, a, 0)); fprintf(stderr, "[print] %s %s\n", m.c_str(), a[1].e ? exprStr(a[1].e, 8).c_str() : std::to_string(a[1].v).c_str()); } done(x, s, I); });
	N("sx_max_steps") { g_cfg.maxSteps = a[0].v; done(x, s, I); });
	// --- mathematics on concrete values
	static const std::map<std::string, double (*)(double)> fm = { { "floor", ::floor }, { "ceil", ::ceil }, { "log10", ::log10 }, { "log2", ::log2 }, { "exp", ::exp }, { "log", ::log }, { "round", ::round }, { "exp2", ::exp2 } };
	for (auto& p : fm) { auto fn = p.second; def(p.first.c_str(), [fn](Exec& x, State& s, const Inst& I, Args& a) { uint64_t v = C(x, s, I, a, 0); double d; memcpy(&d, &v, 8); d = fn(d); memcpy(&v, &d, 8); ret(x, s, I, VC(v)); }); }
	N("pow") { uint64_t u = C(x, s, I, a, 0), v = C(x, s, I, a, 1); double d, e; memcpy(&d, &u, 8); memcpy(&e, &v, 8); d = pow(d, e); memcpy(&u, &d, 8); ret(x, s, I, VC(u)); });
	N("ldexp") { uint64_t u = C(x, s, I, a, 0), v = C(x, s, I, a, 1); double d; memcpy(&d, &u, 8); d = ldexp(d, (int)v); memcpy(&u, &d, 8); ret(x, s, I, VC(u)); });
}

void Exec::native(State& s, const Inst& I, Function* fn, std::vector<Val>& a) {
	if (!g_init) initNat();
	if (starts(fn->name, "llvm.")) {
		if (intrinsic(s, I, fn->name, a)) return;
		throw Incomplete{ "unsupported intrinsic " + fn->name };
	}
	auto it = nat.find(fn->name);
	if (it == nat.end()) throw Incomplete{ "external function " + demangle(fn->name) };
	it->second(*this, s, I, a);
}
