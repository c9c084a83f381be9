#include "exec.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <cxxabi.h>

Config g_cfg;
CaseStats g_st;
static uint64_t g_genCounter = 1;
double wallNow() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
std::string demangle(const std::string& n) { int st; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st); if (!d) return n; std::string r = d; free(d); return r; }

// ---------------------------------------------------------------- objects
Obj* newObj(uint64_t base, uint64_t size, ObjKind k, bool uninit) {
	auto* o = new Obj();
	o->base = base; o->size = size; o->kind = k;
	o->data = (uint8_t*)calloc(size ? size : 1, 1);
	if (uninit && size) { o->tag = (uint8_t*)malloc(size); memset(o->tag, 2, size); }
	return o;
}
Obj* cloneObj(const Obj* s) {
	auto* o = new Obj(*s);
	o->refs = 1;
	if (s->data) { o->data = (uint8_t*)malloc(s->size ? s->size : 1); memcpy(o->data, s->data, s->size); }
	if (s->tag) { o->tag = (uint8_t*)malloc(s->size); memcpy(o->tag, s->tag, s->size); }
	if (s->sym) { o->sym = (E*)malloc(s->size * sizeof(E)); memcpy(o->sym, s->sym, s->size * sizeof(E)); }
	if (s->race) { o->race = new RaceCell[s->size]; std::copy(s->race, s->race + s->size, o->race); }
	return o;
}
void unref(Obj* o) {
	if (--o->refs) return;
	free(o->data); free(o->tag); free(o->sym); delete[] o->race; delete o;
}
static void setSym(Obj* o, uint64_t i, E e) {
	if (!o->tag) o->tag = (uint8_t*)calloc(o->size, 1);
	if (!o->sym) o->sym = (E*)calloc(o->size, sizeof(E));
	o->tag[i] = 1; o->sym[i] = e;
}

// ---------------------------------------------------------------- reporting
std::string Exec::locOf(State& s) {
	auto& fr = s.th[s.cur].fr;
	for (size_t i = fr.size(); i-- > 0;) {
		auto& f = fr[i];
		if (f.f->blocks.empty() || f.ip >= f.f->blocks[f.block].insts.size()) continue;
		auto& I = f.f->blocks[f.block].insts[f.ip];
		if (I.line) { std::string fn = M.files[I.file]; size_t p = fn.rfind('/'); return (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(I.line); }
	}
	return "?";
}
std::string Exec::stackOf(State& s) {
	std::string r;
	auto& fr = s.th[s.cur].fr;
	for (size_t i = fr.size(); i-- > 0;) {
		auto& f = fr[i];
		r += demangle(f.f->name).substr(0, 160);
		if (f.ip < f.f->blocks[f.block].insts.size()) {
			auto& I = f.f->blocks[f.block].insts[f.ip];
			if (I.line) r += " at " + M.files[I.file] + ":" + std::to_string(I.line);
			std::vector<std::pair<std::string, std::string>> sc;
			if (I.raw) scopesOf(I.raw, sc);
			if (sc.size() > 1) { r += " [inlined:"; for (size_t k = 0; k + 1 < sc.size() && k < 4; k++) r += " " + demangle(sc[k].first).substr(0, 80); r += "]"; }
		}
		r += "\n";
	}
	return r;
}
static std::string hex(const std::string& b) { static const char* d = "0123456789abcdef"; std::string r; for (unsigned char c : b) { r += d[c >> 4]; r += d[c & 15]; } return r; }
std::vector<std::pair<std::string, std::string>> Exec::inputsOf(State& s, const Model& m) {
	std::vector<std::pair<std::string, std::string>> r;
	for (auto& i : s.inputs) {
		std::string b;
		for (uint32_t y : *i.syms) {
			uint64_t v = m.get(y);
			for (unsigned q = 0; q < (unsigned)g_syms[y].w / 8; q++) b += (char)(v >> (8 * q));
		}
		r.push_back({ i.name, hex(b) });
	}
	return r;
}
void Exec::violate(State& s, const std::string& kind, const std::string& msg, std::shared_ptr<Model> m, bool end) {
	if (!m) m = s.model;
	std::string loc = locOf(s);
	std::string key = kind + "|" + msg + (kind == "assert" ? "" : "|" + loc);
	auto it = g_st.viol.find(key);
	if (it != g_st.viol.end()) it->second.count++;
	else {
		Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.inputs = inputsOf(s, *m); v.sched = s.sched; v.stack = stackOf(s);
		g_st.viol[key] = v;
	}
	if (end) throw PathDone{};
}

// ---------------------------------------------------------------- decisions
void Exec::setModel(State& s, std::shared_ptr<Model> m) { s.model = m; s.evgen = ++g_genCounter; g_evgen = s.evgen; }
u128 Exec::ev(State& s, E e) { return evalIn(e, *s.model); }
State* Exec::forkWith(State& s, E c, std::shared_ptr<Model> m) {
	auto* n = new State(s);
	if (c) addConstraint(*n, c);
	n->model = m ? m : s.model;
	n->evgen = ++g_genCounter;
	n->forks++;
	work.push_back(n);
	g_st.forks++; g_st.states++;
	return n;
}
void Exec::checkUninit(State& s, E c, const char* what) {
	if (c->uninit && uninitMatters(s, c)) violate(s, "uninit", std::string("use of uninitialised memory in ") + what);
}
bool Exec::decide(State& s, E c) {
	if (isC(c)) return c->c != 0;
	if (c->uninit) checkUninit(s, c, "a branch condition");
	bool v = ev(s, c) != 0;
	E other = v ? mkNot(c) : c, mine = v ? c : mkNot(c);
	std::shared_ptr<Model> m;
	if (feasible(s, other, &m)) { forkWith(s, other, m); addConstraint(s, mine); }
	return v;
}
// a tree of selections between constants, with the selections the path has already decided taken
static E decided(State& s, E e, int depth = 0) {
	if (depth > 40) return e;
	if (e->op == O_ITE) {
		E c = e->a[0], n = mkNot(c);
		for (E p : s.pc) { if (p == c) return decided(s, e->a[1], depth + 1); if (p == n) return decided(s, e->a[2], depth + 1); }
		if (!isC(e->a[1]) || !isC(e->a[2])) { E a = decided(s, e->a[1], depth + 1), b = decided(s, e->a[2], depth + 1); if (a != e->a[1] || b != e->a[2]) return mkITE(c, a, b); }
		return e;
	}
	if (e->op == O_ADD && (isC(e->a[0]) || isC(e->a[1]))) { E k = isC(e->a[0]) ? e->a[0] : e->a[1], r = isC(e->a[0]) ? e->a[1] : e->a[0], d = decided(s, r, depth + 1); return d == r ? e : mkBin(O_ADD, d, k); }
	if (e->op == O_CONCAT && isC(e->a[0])) { E d = decided(s, e->a[1], depth + 1); return d == e->a[1] ? e : mkConcat(e->a[0], d); }
	if (e->op == O_CONCAT && isC(e->a[1])) { E d = decided(s, e->a[0], depth + 1); return d == e->a[0] ? e : mkConcat(d, e->a[1]); }
	return e;
}
uint64_t Exec::conc(State& s, const Val& v0, unsigned w, const char* what) {
	if (!v0.e) return v0.v;
	Val v = v0; v.e = decided(s, v.e); if (isC(v.e)) return (uint64_t)v.e->c;
	if (v.e->uninit) checkUninit(s, v.e, what);
	uint64_t x = (uint64_t)ev(s, v.e);
	E eq = mkEq(v.e, mkConst(x, w));
	if (isC(eq)) return x;
	std::shared_ptr<Model> m;
	E ne = mkNot(eq);
	if (feasible(s, ne, &m)) { forkWith(s, ne, m); addConstraint(s, eq); }
	return x;
}
E Exec::newSym(State& s, unsigned w, const std::string& name, bool uninit) {
	static std::map<std::tuple<uint32_t, unsigned, bool, std::string>, E> canon;
	auto& e = canon[{ s.nsym, w, uninit, name }];
	if (!e) e = mkSym(w, name, uninit);
	s.nsym++;
	if (s.nsym > g_st.maxSyms) g_st.maxSyms = s.nsym;
	return e;
}

// ---------------------------------------------------------------- memory
static const char* kindName(ObjKind k) { switch (k) { case K_GLOBAL: return "global"; case K_STACK: return "stack"; case K_MALLOC: return "malloc"; case K_NEW: return "new"; case K_NEWARR: return "new[]"; default: return "object"; } }
void Exec::raceCheck(State& s, Obj* o, uint64_t off, uint64_t n, bool write) {
	int t = s.cur;
	auto& vc = s.th[t].vc;
	if (!o->race) o->race = new RaceCell[o->size];
	for (uint64_t i = off; i < off + n; i++) {
		auto& c = o->race[i];
		if (c.wt >= 0 && c.wt != t && c.wc > vc.c[c.wt]) violate(s, "race", "data race on shared memory");
		if (write) {
			for (int u = 0; u < MAXT; u++) if (u != t && c.rc[u] > vc.c[u]) violate(s, "race", "data race on shared memory");
			c.wt = (int8_t)t; c.wc = vc.c[t];
		} else c.rc[t] = vc.c[t];
	}
}
Obj* Exec::access(State& s, uint64_t addr, uint64_t size, bool write, const char* what, bool race) {
	Obj* o = s.mem.find(addr);
	if (!o) violate(s, "memory", std::string("invalid pointer in ") + what + (addr < 65536 ? " (null)" : ""));
	if (o->freed) violate(s, "memory", std::string("use after free in ") + what);
	uint64_t off = addr - o->base;
	if (off > o->size || size > o->size - off) violate(s, "memory", std::string("out of bounds ") + what + " (" + kindName(o->kind) + " object)");
	if (write) {
		if (o->ro) violate(s, "memory", std::string("write to constant data in ") + what);
		o = s.mem.writable(o);
	}
	if (race && s.mt && !o->ro) { if (!write) o = s.mem.writable(o); raceCheck(s, o, off, size, write); }
	return o;
}
E Exec::loadByte(State& s, uint64_t addr) {
	Obj* o = s.mem.find(addr);
	uint64_t off = addr - o->base;
	if (!o->tag || o->tag[off] == 0) return mkConst(o->data[off], 8);
	if (o->tag[off] == 1) return o->sym[off];
	o = s.mem.writable(o);
	E e = newSym(s, 8, "uninit", true);
	// the value seen by the engine's model must satisfy nothing in particular
	setSym(o, off, e);
	return e;
}
void Exec::storeByte(State& s, uint64_t addr, E e) {
	Obj* o = s.mem.writable(s.mem.find(addr));
	uint64_t off = addr - o->base;
	if (isC(e)) { o->data[off] = (uint8_t)e->c; if (o->tag) o->tag[off] = 0; }
	else setSym(o, off, e);
}
Val Exec::loadLeaf(State& s, uint64_t addr, unsigned w, unsigned bytes, bool race) {
	Obj* o = access(s, addr, bytes, false, "read", race);
	uint64_t off = addr - o->base;
	bool plain = true;
	if (o->tag) for (unsigned i = 0; i < bytes; i++) if (o->tag[off + i]) { plain = false; break; }
	if (plain) {
		Val v{ 0, 0, nullptr };
		if (bytes <= 8) memcpy(&v.v, o->data + off, bytes);
		else { memcpy(&v.v, o->data + off, 8); memcpy(&v.h, o->data + off + 8, bytes - 8); }
		if (w < 64) v.v &= (1ull << w) - 1; else if (w > 64 && w < 128) v.h &= (1ull << (w - 64)) - 1;
		return v;
	}
	E e = loadByte(s, addr);
	for (unsigned i = 1; i < bytes; i++) e = mkConcat(loadByte(s, addr + i), e);
	if (e->w > w) e = mkTrunc(e, w);
	return fromE(e);
}
void Exec::storeLeaf(State& s, uint64_t addr, const Val& v, unsigned w, unsigned bytes, bool race) {
	Obj* o = access(s, addr, bytes, true, "write", race);
	uint64_t off = addr - o->base;
	if (!v.e) {
		if (bytes <= 8) memcpy(o->data + off, &v.v, bytes);
		else { memcpy(o->data + off, &v.v, 8); memcpy(o->data + off + 8, &v.h, bytes - 8); }
		if (o->tag) memset(o->tag + off, 0, bytes);
		return;
	}
	E e = v.e;
	if (e->w < bytes * 8) e = mkZExt(e, bytes * 8);
	for (unsigned i = 0; i < bytes; i++) {
		E b = mkExtract(e, i * 8, 8);
		if (isC(b)) { o->data[off + i] = (uint8_t)b->c; if (o->tag) o->tag[off + i] = 0; }
		else setSym(o, off + i, b);
	}
}
uint64_t Exec::addrOf(State& s, const Val& a, uint64_t size, const char* what) { return conc(s, a, 64, "an address"); }

// the distinct constants a tree of selections (plus constant displacements) can be, if at most n
static bool constLeaves(E e, std::vector<uint64_t>& out, size_t n) {
	auto put = [&](uint64_t v) { for (uint64_t x : out) if (x == v) return true; out.push_back(v); return out.size() <= n; };
	if (isC(e)) return put((uint64_t)e->c);
	if (e->op == O_ITE) return constLeaves(e->a[1], out, n) && constLeaves(e->a[2], out, n);
	uint64_t k; E r; bool add = false;
	if (e->op == O_ADD && isC(e->a[0])) k = (uint64_t)e->a[0]->c, r = e->a[1], add = true;
	else if (e->op == O_ADD && isC(e->a[1])) k = (uint64_t)e->a[1]->c, r = e->a[0], add = true;
	else if (e->op == O_CONCAT && e->w <= 64 && isC(e->a[0])) k = (uint64_t)e->a[0]->c << e->a[1]->w, r = e->a[1];
	else if (e->op == O_CONCAT && e->w <= 64 && isC(e->a[1])) { std::vector<uint64_t> in; if (!constLeaves(e->a[0], in, n)) return false; for (uint64_t v : in) if (!put(v << e->a[1]->w | (uint64_t)e->a[1]->c)) return false; return true; }
	else return false;
	std::vector<uint64_t> in; if (!constLeaves(r, in, n)) return false;
	for (uint64_t v : in) { uint64_t t = add ? v + k : v | k; if (e->w < 64) t &= (1ull << e->w) - 1; if (!put(t)) return false; }
	return true;
}
Val Exec::loadVal(State& s, const Val& a, unsigned w, unsigned bytes) {
	if (!a.e) return loadLeaf(s, a.v, w, bytes);
	E ae = decided(s, a.e);
	if (isC(ae)) return loadLeaf(s, (uint64_t)ae->c, w, bytes);
	if (ae->uninit) checkUninit(s, ae, "an address");
	uint64_t cur = (uint64_t)ev(s, ae);
	Obj* o = s.mem.find(cur);
	if (!o || o->freed || cur - o->base + bytes > o->size || s.mt) return loadLeaf(s, conc(s, a, 64, "an address"), w, bytes);
	{
		// one of a few constant addresses (a tree descent compiled to selects): one path per address where they lie in
		// several objects or hold pointers, a selection of the values otherwise
		std::vector<uint64_t> leaves;
		if (constLeaves(ae, leaves, 24) && leaves.size() > 1) {
			bool one = true, ptrs = w == 64 && bytes == 8;
			for (uint64_t a2 : leaves) {
				if (a2 < o->base || a2 - o->base > o->size - bytes) { one = false; break; }
				if (!ptrs) continue;
				if (o->tag) for (unsigned i = 0; i < 8; i++) if (o->tag[a2 - o->base + i]) ptrs = false;
				uint64_t v; memcpy(&v, o->data + (a2 - o->base), 8);
				if (v && !s.mem.find(v)) ptrs = false;
			}
			if (!one || ptrs) return loadLeaf(s, conc(s, a, 64, "an address"), w, bytes);
			E r = nullptr;
			for (uint64_t a2 : leaves) { E v = toE(loadLeaf(s, a2, w, bytes), w); r = r ? mkITE(mkEq(ae, mkConst(a2, 64)), v, r) : v; }
			return fromE(r);
		}
	}
	E off = mkBin(O_SUB, ae, mkConst(o->base, 64));
	// split off accesses outside this object
	E inb = mkBin(O_ULE, off, mkConst(o->size - bytes, 64));
	if (!isC(inb)) {
		std::shared_ptr<Model> m;
		E nb = mkNot(inb);
		if (feasible(s, nb, &m)) { forkWith(s, nb, m); addConstraint(s, inb); }
	}
	if (isC(off)) return loadLeaf(s, o->base + (uint64_t)off->c, w, bytes);
	// alignment of the offset
	unsigned tz = 0;
	while (tz < 4 && isC(mkExtract(off, tz, 1)) && mkExtract(off, tz, 1)->c == 0) tz++;
	uint64_t n = ((o->size - bytes) >> tz) + 1;
	if (off->sup->size() == 1 && g_syms[off->sup->front()].w <= 8) {
		// one byte decides: tabulate over its values
		auto t = unaryTable(off);
		uint32_t sv = off->sup->front();
		bool concrete = true;
		std::vector<u128> vals(t.size(), 0);
		std::map<uint64_t, E> seen;
		for (size_t i = 0; i < t.size(); i++) {
			if (sv < s.domSet.size() && s.domSet[sv] && !s.dom[sv].test(i)) continue;
			uint64_t of = (uint64_t)t[i];
			if (of + bytes > o->size) continue;
			Val v = loadLeaf(s, o->base + of, w, bytes);
			if (v.e) { concrete = false; seen[of] = v.e; } else { vals[i] = (u128)v.v | (u128)v.h << 64; seen[of] = toE(v, w); }
		}
		if (concrete) {
			// values outside the domain are free: repeat a feasible one so that the table stays simple
			u128 any = 0; bool have = false;
			for (size_t i = 0; i < t.size(); i++) { bool in = !(sv < s.domSet.size() && s.domSet[sv] && !s.dom[sv].test(i)) && (uint64_t)t[i] + bytes <= o->size; if (in && !have) { any = vals[i]; have = true; } }
			for (size_t i = 0; i < t.size(); i++) { bool in = !(sv < s.domSet.size() && s.domSet[sv] && !s.dom[sv].test(i)) && (uint64_t)t[i] + bytes <= o->size; if (!in) vals[i] = any; }
			return fromE(mkTab(vals, g_syms[sv].e, w));
		}
		if (seen.size() <= 64) {
			E r = nullptr;
			for (auto& p : seen) r = r ? mkITE(mkEq(off, mkConst(p.first, 64)), p.second, r) : p.second;
			return fromE(r);
		}
	} else if (n <= 256) {
		E idx = mkExtract(off, tz, 8);
		bool concrete = true;
		std::vector<u128> vals(256, 0); std::vector<E> es;
		for (uint64_t i = 0; i < n; i++) {
			Val v = loadLeaf(s, o->base + (i << tz), w, bytes);
			if (v.e) concrete = false; else vals[i] = (u128)v.v | (u128)v.h << 64;
			es.push_back(toE(v, w));
		}
		if (concrete) { for (uint64_t i = n; i < 256; i++) vals[i] = vals[n - 1]; return fromE(mkTab(vals, idx, w)); }
		if (n <= 64) {
			E r = es[0];
			for (uint64_t i = 1; i < n; i++) r = mkITE(mkEq(idx, mkConst(i, 8)), es[i], r);
			return fromE(r);
		}
	}
	if (getenv("SXE_DBG")) fprintf(stderr, "address by enumeration: n=%lu tz=%u off=%s\n", n, tz, exprStr(off, 9).c_str());
	return loadLeaf(s, conc(s, a, 64, "an address"), w, bytes);
}
void Exec::copyBytes(State& s, uint64_t d, uint64_t src, uint64_t n) {
	if (!n) return;
	Obj* so = access(s, src, n, false, "memory copy (source)");
	Obj* dO = access(s, d, n, true, "memory copy (destination)");
	so = s.mem.find(src);
	uint64_t a = src - so->base, b = d - dO->base;
	if (!so->tag && !dO->tag) { memmove(dO->data + b, so->data + a, n); return; }
	std::vector<uint8_t> data(so->data + a, so->data + a + n), tg(n, 0); std::vector<E> sy(n, nullptr);
	if (so->tag) { memcpy(tg.data(), so->tag + a, n); if (so->sym) for (uint64_t i = 0; i < n; i++) if (tg[i] == 1) sy[i] = so->sym[a + i]; }
	for (uint64_t i = 0; i < n; i++) {
		if (tg[i] == 1) setSym(dO, b + i, sy[i]);
		else {
			dO->data[b + i] = data[i];
			if (tg[i] == 2) { if (!dO->tag) dO->tag = (uint8_t*)calloc(dO->size, 1); dO->tag[b + i] = 2; }
			else if (dO->tag) dO->tag[b + i] = 0;
		}
	}
}
uint64_t Exec::alloc(State& s, uint64_t size, ObjKind k, bool uninit) {
	uint64_t a = s.nextAddr;
	s.nextAddr += (size / SLOT + 1) * SLOT;
	Obj* o = newObj(a, size, k, uninit);
	o->serial = s.nserial++;
	s.mem.put(o);
	if (k == K_MALLOC || k == K_NEW || k == K_NEWARR) s.live++;
	return a;
}
void Exec::release(State& s, uint64_t addr, ObjKind k) {
	Obj* o = s.mem.find(addr);
	if (!o || o->base != addr || o->kind == K_GLOBAL || o->kind == K_STACK || o->kind == K_FUNC) violate(s, "memory", "freeing a pointer that is not an allocated block");
	if (o->freed) violate(s, "memory", "double free");
	if (o->kind != k) violate(s, "memory", std::string("block allocated with ") + kindName(o->kind) + " released as " + kindName(k));
	if (s.mt) { o = s.mem.writable(o); raceCheck(s, o, 0, o->size, true); }
	if (s.wiped) for (uint64_t i = 0; i < o->size; i++) {
		if (o->tag && o->tag[i] == 2) continue;
		E e = loadByte(s, addr + i), ne = mkNot(mkEq(e, mkConst(0, 8)));
		std::shared_ptr<Model> m;
		if (ne->op == O_CONST ? ne->c != 0 : feasible(s, ne, &m)) { violate(s, "assert", "memory is given back without having been overwritten", m, false); break; }
	}
	Obj* t = new Obj();
	t->base = addr; t->size = o->size; t->kind = o->kind; t->freed = true;
	if (k == K_MALLOC || k == K_NEW || k == K_NEWARR) s.live--;
	s.mem.put(t);
}
std::string Exec::cstr(State& s, uint64_t a) {
	std::string r;
	while (true) { Val v = loadLeaf(s, a++, 8, 1, false); uint64_t c = conc(s, v, 8, "a string"); if (!c) return r; r += (char)c; if (r.size() > 4096) return r; }
}

// ---------------------------------------------------------------- frames
void Exec::takeEdge(State& s, Frame& f, const Edge& e) {
	if (e.moves.size() == 1) {
		auto& m = e.moves[0];
		for (unsigned k = 0; k < m.n; k++) f.regs[m.dst + k] = getk(f, m.src, k);
	} else if (!e.moves.empty()) {
		Val tmp[64]; std::vector<Val> big; Val* t = tmp;
		size_t n = 0; for (auto& m : e.moves) n += m.n;
		if (n > 64) { big.resize(n); t = big.data(); }
		size_t k2 = 0;
		for (auto& m : e.moves) for (unsigned k = 0; k < m.n; k++) t[k2++] = getk(f, m.src, k);
		k2 = 0;
		for (auto& m : e.moves) for (unsigned k = 0; k < m.n; k++) f.regs[m.dst + k] = t[k2++];
	}
	f.block = e.target; f.ip = 0;
}
void Exec::advance(State& s, Frame& f) {
	auto& I = f.f->blocks[f.block].insts[f.ip];
	if (I.op == I_INVOKE) takeEdge(s, f, I.edges[0]);
	else f.ip++;
}
void Exec::pushFrame(State& s, Function* fn, const std::vector<Val>& args, const std::vector<uint16_t>* meta) {
	if (!fn->raw || !fn->defined) throw Incomplete{ "call of an external function " + fn->name };
	decodeFunction(fn);
	if (!fn->entered) { fn->entered = true; }
	auto& th = s.th[s.cur];
	if (th.fr.size() > 400) violate(s, "hang", "runaway recursion");
	th.fr.emplace_back();
	Frame& f = th.fr.back();
	f.f = fn;
	f.regs.resize(fn->nregs);
	size_t k = 0;
	for (size_t i = 0; i < fn->argSlot.size(); i++)
		for (unsigned q = 0; q < fn->argN[i]; q++) { if (k < args.size()) f.regs[fn->argSlot[i] + q] = args[k]; k++; }
	for (size_t i = 0; i < fn->argSlot.size(); i++)
		if (fn->argByval[i]) {
			uint64_t src = f.regs[fn->argSlot[i]].v, a = alloc(s, fn->argByval[i], K_STACK, true);
			copyBytes(s, a, src, fn->argByval[i]);
			th.fr.back().regs[fn->argSlot[i]] = VC(a);
			th.fr.back().allocas.push_back(a);
		}
	if (fn->variadic) {
		size_t extra = args.size() > k ? args.size() - k : 0;
		uint64_t a = alloc(s, extra * 8 ? extra * 8 : 8, K_VA, true);
		size_t argIdx = fn->argSlot.size();
		for (size_t i = 0; i < extra; i++) {
			unsigned w = 64;
			if (meta && argIdx + i < meta->size()) w = (*meta)[argIdx + i] >> 8;
			Val v = args[k + i];
			if (v.e && v.e->w < 64) v.e = mkZExt(v.e, 64);
			(void)w;
			storeLeaf(s, a + i * 8, v, 64, 8, false);
		}
		Frame& g = s.th[s.cur].fr.back();
		g.va = a; g.allocas.push_back(a);
	}
}
void Exec::popFrame(State& s) {
	auto& th = s.th[s.cur];
	for (uint64_t a : th.fr.back().allocas) {
		Obj* o = s.mem.find(a);
		Obj* t = new Obj(); t->base = a; t->size = o->size; t->kind = o->kind; t->freed = true;
		s.mem.put(t);
	}
	th.fr.pop_back();
}
void Exec::doReturn(State& s, const std::vector<Val>& rv) {
	auto& th = s.th[s.cur];
	uint8_t sp = th.fr.back().special; uint64_t sa = th.fr.back().specialArg;
	popFrame(s);
	if (th.fr.empty()) {
		if (s.cur == 0) { finishPath(s); throw PathDone{}; }
		th.st = T_DONE;
		block(s);
		return;
	}
	Frame& f = th.fr.back();
	auto& I = f.f->blocks[f.block].insts[f.ip];
	if (sp == 1) { // destructor of a caught exception: free its storage
		Obj* o = s.mem.find(sa);
		if (o && !o->freed) { Obj* t = new Obj(); t->base = sa; t->size = o->size; t->kind = o->kind; t->freed = true; s.mem.put(t); }
	} else if (sp == 2) return; // return to the same instruction (re-executed)
	else for (size_t k = 0; k < rv.size() && (int)k < (int)I.nslots; k++) f.regs[I.dst + k] = rv[k];
	advance(s, f);
}

// ---------------------------------------------------------------- exceptions
bool Exec::isBase(uint64_t t, uint64_t want, int64_t& off) {
	if (t == want) { return true; }
	auto it = M.gbyAddr.find(t);
	if (it == M.gbyAddr.end() || !it->second->defined) return false;
	auto* g = it->second;
	auto q = [&](size_t o) { uint64_t v = 0; if (o + 8 <= g->init.size()) memcpy(&v, g->init.data() + o, 8); return v; };
	uint64_t vt = q(0);
	std::string vn;
	for (auto* x : M.globals) if (vt >= x->addr && vt < x->addr + SLOT) { vn = x->name; break; }
	if (vn.find("__si_class_type_info") != std::string::npos) return isBase(q(16), want, off);
	if (vn.find("__vmi_class_type_info") != std::string::npos) {
		uint32_t n; memcpy(&n, g->init.data() + 20, 4);
		for (uint32_t i = 0; i < n; i++) {
			int64_t of = (int64_t)q(24 + 16 * i + 8) >> 8; int64_t o2 = 0;
			if (isBase(q(24 + 16 * i), want, o2)) { off += of + o2; return true; }
		}
	}
	return false;
}
static ExcRec* findExc(State& s, uint64_t a) { for (auto& e : s.exc) if (e.addr == a) return &e; return nullptr; }
void Exec::unwind(State& s) {
	auto& th = s.th[s.cur];
	uint64_t ex = th.inflight;
	ExcRec* r = findExc(s, ex);
	while (!th.fr.empty()) {
		Frame& f = th.fr.back();
		auto& I = f.f->blocks[f.block].insts[f.ip];
		if (I.op == I_INVOKE) {
			auto& lp = f.f->blocks[I.edges[1].target].insts[0];
			bool take = lp.cleanup;
			if (!take) for (auto& c : lp.clauses) {
				if (c.filter) { bool any = false; for (uint64_t t : c.types) { int64_t o = 0; if (t == 0 || isBase(r->ti, t, o)) any = true; } if (!any) take = true; }
				else { int64_t o = 0; if (c.types[0] == 0 || isBase(r->ti, c.types[0], o)) take = true; }
			}
			if (take) { takeEdge(s, f, I.edges[1]); return; }
		}
		popFrame(s);
	}
	std::string tn = "?"; auto it = M.gbyAddr.find(r->ti); if (it != M.gbyAddr.end()) tn = demangle(it->second->name);
	violate(s, "terminate", "exception escapes: " + tn);
}

// ---------------------------------------------------------------- threads
int Exec::alive(State& s) { int n = 0; for (auto& t : s.th) if (t.st != T_DONE) n++; return n; }
bool Exec::runnable(State& s, int t) {
	auto& T = s.th[t];
	switch (T.st) {
	case T_RUN: return true;
	case T_MUTEX: case T_CONDLOCK: { auto it = s.mtx.find(T.st == T_MUTEX ? T.waitOn : T.condMutex); return it == s.mtx.end() || (it->second.owner < 0 && (T.reader || !it->second.readers())); }
	case T_COND: return false;
	case T_JOIN: return s.th[T.waitOn].st == T_DONE;
	case T_YIELD: return s.syncOps != T.progress;
	case T_DONE: return false;
	}
	return false;
}
void Exec::switchTo(State& s, int t) {
	auto& T = s.th[t];
	s.cur = t;
	if (T.st == T_COND) { // timeout fires, or a spurious wake-up
		if (T.timed) { T.timedOut = true; E n = toE(s.now, 64), d = toE(T.deadline, 64); s.now = fromE(mkITE(mkBin(O_ULT, n, d), d, n)); }
		else s.spurious++;
		T.st = T_CONDLOCK;
		auto it = s.mtx.find(T.condMutex);
		if (it != s.mtx.end() && it->second.owner >= 0) { block(s); return; }
	}
	if (T.st == T_YIELD || T.st == T_MUTEX || T.st == T_JOIN) T.st = T_RUN, T.reader = false;
	T.skipSched = true;
}
// The current thread cannot continue: choose another one.
void Exec::block(State& s) {
	s.mt = alive(s) > 1;
	std::vector<int> c;
	for (int t = 0; t < (int)s.th.size(); t++) if (t != s.cur || s.th[t].st != T_RUN) if (runnable(s, t)) c.push_back(t);
	for (int t = 0; t < (int)s.th.size(); t++) if (s.th[t].st == T_COND && s.th[t].timed) c.push_back(t);
	if (c.empty()) {
		// only spinning threads left?
		bool spin = false;
		for (int t = 0; t < (int)s.th.size(); t++) if (s.th[t].st == T_YIELD) spin = true;
		if (spin) violate(s, "hang", "livelock: every thread that can run only spins");
		std::string d;
		for (int t = 0; t < (int)s.th.size(); t++) { auto st = s.th[t].st; if (st == T_MUTEX || st == T_CONDLOCK) d += " thread " + std::to_string(t) + " waits for a mutex;"; if (st == T_COND) d += " thread " + std::to_string(t) + " waits for a notification;"; if (st == T_JOIN) d += " thread " + std::to_string(t) + " waits for a thread to end;"; }
		violate(s, "deadlock", "deadlock:" + d);
	}
	int pick = c[0];
	if (g_cfg.replay) {
		if (c.size() > 1) { if (s.sched.size() < g_cfg.rsched.size()) pick = g_cfg.rsched[s.sched.size()]; s.sched.push_back((uint8_t)pick); }
	} else if (c.size() > 1) {
		for (size_t i = 1; i < c.size(); i++) {
			auto* n = new State(s);
			n->forks++; g_st.forks++; g_st.states++; n->evgen = ++g_genCounter;
			n->sched.push_back((uint8_t)c[i]);
			switchTo(*n, c[i]);
			work.push_back(n);
		}
		s.sched.push_back((uint8_t)pick);
	}
	switchTo(s, pick);
}
// Called before a visible operation. Returns true if another thread was scheduled instead.
bool Exec::schedPoint(State& s) {
	if (!s.mt) return false;
	auto& T = s.th[s.cur];
	if (T.skipSched) { T.skipSched = false; return false; }
	// a thread that keeps executing visible operations while nothing changes is waiting: let the others run
	if (T.progress != s.syncOps) { T.progress = s.syncOps; T.spin = 0; }
	if (++T.spin > 64) { T.spin = 0; T.st = T_YIELD; T.progress = s.syncOps; block(s); return true; }
	std::vector<int> c;
	for (int t = 0; t < (int)s.th.size(); t++) if (t != s.cur && runnable(s, t)) c.push_back(t);
	for (int t = 0; t < (int)s.th.size(); t++) if (t != s.cur && s.th[t].st == T_COND && (s.th[t].timed || s.spurious < g_cfg.spurious)) c.push_back(t);
	if (c.empty() || s.preempt >= g_cfg.preemptBound) return false;
	if (g_cfg.replay) {
		int pick = s.sched.size() < g_cfg.rsched.size() ? g_cfg.rsched[s.sched.size()] : s.cur;
		s.sched.push_back((uint8_t)pick);
		if (pick == s.cur) return false;
		s.preempt++;
		T.skipSched = true;
		switchTo(s, pick);
		return true;
	}
	for (int t : c) {
		auto* n = new State(s);
		n->forks++; g_st.forks++; g_st.states++; n->evgen = ++g_genCounter;
		n->preempt++;
		n->sched.push_back((uint8_t)t);
		n->th[n->cur].skipSched = true;
		try { switchTo(*n, t); work.push_back(n); } catch (PathDone&) { delete n; }
	}
	s.sched.push_back((uint8_t)s.cur);
	return false;
}

// ---------------------------------------------------------------- floating point
static long double fget(const Val& v, FKind k) {
	if (k == F_FLOAT) { float f; uint32_t u = (uint32_t)v.v; memcpy(&f, &u, 4); return f; }
	if (k == F_DOUBLE) { double d; memcpy(&d, &v.v, 8); return d; }
	long double l = 0; memcpy(&l, &v.v, 8); memcpy((char*)&l + 8, &v.h, 2); return l;
}
static Val fput(long double x, FKind k) {
	Val v{ 0, 0, nullptr };
	if (k == F_FLOAT) { float f = (float)x; uint32_t u; memcpy(&u, &f, 4); v.v = u; }
	else if (k == F_DOUBLE) { double d = (double)x; memcpy(&v.v, &d, 8); }
	else { memcpy(&v.v, &x, 8); memcpy(&v.h, (char*)&x + 8, 2); }
	return v;
}

// ---------------------------------------------------------------- the interpreter
static void concReg(Exec& x, State& s, Frame*& f, Opnd o, unsigned w, const char* what) {
	if (o.slot < 0) { if (f->f->pool[~o.slot].e) x.conc(s, f->f->pool[~o.slot], w, what); return; }
	Val v = f->regs[o.slot];
	if (!v.e) return;
	uint64_t c = x.conc(s, v, w, what);
	s.th[s.cur].fr.back().regs[o.slot] = VC(c);
}

void Exec::step(State& s) {
	Frame* fp = &s.th[s.cur].fr.back();
	Frame& f = *fp;
	const Inst& I = f.f->blocks[f.block].insts[f.ip];
	s.steps++; g_st.insts++;
	switch (I.op) {
	case I_RET: {
		std::vector<Val> rv;
		if (!I.ops.empty()) for (unsigned k = 0; k < f.f->retSlots; k++) rv.push_back(getk(f, I.ops[0], k));
		doReturn(s, rv);
		return;
	}
	case I_BR: takeEdge(s, f, I.edges[0]); return;
	case I_CONDBR: {
		Val c = get(f, I.ops[0]);
		bool b = c.e ? decide(s, c.e) : c.v & 1;
		takeEdge(s, f, I.edges[b ? 0 : 1]);
		return;
	}
	case I_SWITCH: {
		Val c = get(f, I.ops[0]);
		uint64_t v;
		if (c.e) {
			if (c.e->uninit) checkUninit(s, c.e, "a branch condition");
			// group by destination: take the side of the current model, fork the rest
			v = (uint64_t)ev(s, c.e);
			size_t tgt = 0;
			for (size_t k = 0; k < I.swv.size(); k++) if (I.swv[k] == v) { tgt = k + 1; break; }
			uint32_t blk = I.edges[tgt].target;
			// condition for going to the same edge (edges with equal target and no phi moves are merged)
			bool merge = I.edges[tgt].moves.empty();
			E in = mkConst(0, 1), dflt = mkConst(1, 1);
			bool any = false;
			for (size_t k = 0; k < I.swv.size(); k++) {
				E q = mkEq(c.e, mkConst(I.swv[k], I.w));
				dflt = mkBin(O_AND, dflt, mkNot(q));
				if (k + 1 == tgt || (merge && I.edges[k + 1].target == blk && I.edges[k + 1].moves.empty())) { in = mkBin(O_OR, in, q); any = true; }
			}
			(void)any;
			if (tgt == 0 || (merge && I.edges[0].target == blk && I.edges[0].moves.empty())) in = mkBin(O_OR, in, dflt);
			if (!isC(in)) {
				std::shared_ptr<Model> m;
				E o = mkNot(in);
				if (feasible(s, o, &m)) { forkWith(s, o, m); addConstraint(s, in); }
			}
			takeEdge(s, f, I.edges[tgt]);
			return;
		}
		v = c.v;
		size_t tgt = 0;
		for (size_t k = 0; k < I.swv.size(); k++) if (I.swv[k] == v) { tgt = k + 1; break; }
		takeEdge(s, f, I.edges[tgt]);
		return;
	}
	case I_UNREACHABLE: violate(s, "ub", "execution reached code the compiler proved unreachable (undefined behaviour)"); return;
	case I_CALL: case I_INVOKE: doCall(s, I); return;
	case I_RESUME: {
		auto& th = s.th[s.cur];
		th.inflight = get(f, I.ops[0]).v;
		popFrame(s);
		unwind(s);
		return;
	}
	case I_LANDINGPAD: {
		auto& th = s.th[s.cur];
		ExcRec* r = findExc(s, th.inflight);
		uint64_t sel = 0;
		for (auto& c : I.clauses) {
			if (c.filter) { bool any = false; for (uint64_t t : c.types) { int64_t o = 0; if (t == 0 || isBase(r->ti, t, o)) any = true; } if (!any) { sel = 0xffffffff; break; } continue; }
			int64_t o = 0;
			if (c.types[0] == 0) { r->adjusted = r->addr; sel = 1; break; }
			if (isBase(r->ti, c.types[0], o)) { r->adjusted = r->addr + o; sel = (c.types[0] - BASE) / SLOT + 2; break; }
		}
		f.regs[I.dst] = VC(th.inflight);
		f.regs[I.dst + 1] = VC(sel & 0xffffffff);
		f.ip++;
		return;
	}
	case I_BIN:
		for (unsigned k = 0; k < I.nslots; k++) {
			Val a = getk(f, I.ops[0], k), b = getk(f, I.ops[1], k);
			Op o = (Op)I.sub;
			if (!a.e && !b.e && I.w <= 64) {
				uint64_t m = I.w == 64 ? ~0ull : (1ull << I.w) - 1, r;
				switch (o) {
				case O_ADD: r = (a.v + b.v) & m; break;
				case O_SUB: r = (a.v - b.v) & m; break;
				case O_MUL: r = (a.v * b.v) & m; break;
				case O_AND: r = a.v & b.v; break;
				case O_OR: r = a.v | b.v; break;
				case O_XOR: r = a.v ^ b.v; break;
				case O_SHL: if (b.v >= I.w) { f.regs[I.dst + k] = fromE(newSym(s, I.w, "poison", true)); continue; } r = (a.v << b.v) & m; break;
				case O_LSHR: if (b.v >= I.w) { f.regs[I.dst + k] = fromE(newSym(s, I.w, "poison", true)); continue; } r = a.v >> b.v; break;
				case O_ASHR: if (b.v >= I.w) { f.regs[I.dst + k] = fromE(newSym(s, I.w, "poison", true)); continue; } r = (uint64_t)binEval(o, a.v, b.v, I.w); break;
				default:
					if (b.v == 0) violate(s, "ub", "division by zero");
					r = (uint64_t)binEval(o, a.v, b.v, I.w);
				}
				f.regs[I.dst + k] = VC(r);
				continue;
			}
			E x = toE(a, I.w), y = toE(b, I.w);
			if (o == O_UDIV || o == O_SDIV || o == O_UREM || o == O_SREM) {
				E z = mkEq(y, mkConst(0, I.w));
				if (!isC(z)) { if (decide(s, z)) violate(s, "ub", "division by zero"); }
				else if (z->c) violate(s, "ub", "division by zero");
			}
			if ((o == O_SHL || o == O_LSHR || o == O_ASHR) && !isC(y)) {
				E big = mkBin(O_ULE, mkConst(I.w, I.w), y);
				if (!isC(big) && (I.w < 3 || maskw(I.w) >= I.w)) { if (decide(s, big)) { fp = &s.th[s.cur].fr.back(); fp->regs[I.dst + k] = fromE(newSym(s, I.w, "poison", true)); continue; } }
			}
			f.regs[I.dst + k] = fromE(mkBin(o, x, y));
		}
		f.ip++;
		return;
	case I_FBIN:
		for (unsigned k = 0; k < I.nslots; k++) {
			concReg(*this, s, fp, Opnd{ I.ops[0].slot + (I.ops[0].slot >= 0 ? (int)k : -(int)k) }, I.w, "floating point"); concReg(*this, s, fp, Opnd{ I.ops[1].slot + (I.ops[1].slot >= 0 ? (int)k : -(int)k) }, I.w, "floating point");
			Val a = getk(f, I.ops[0], k), b = getk(f, I.ops[1], k);
			if (I.fk == F_FLOAT) { float x = (float)fget(a, F_FLOAT), y = (float)fget(b, F_FLOAT), r; switch (I.sub) { case FO_ADD: r = x + y; break; case FO_SUB: r = x - y; break; case FO_MUL: r = x * y; break; case FO_DIV: r = x / y; break; default: r = fmodf(x, y); } f.regs[I.dst + k] = fput(r, F_FLOAT); }
			else if (I.fk == F_DOUBLE) { double x = (double)fget(a, F_DOUBLE), y = (double)fget(b, F_DOUBLE), r; switch (I.sub) { case FO_ADD: r = x + y; break; case FO_SUB: r = x - y; break; case FO_MUL: r = x * y; break; case FO_DIV: r = x / y; break; default: r = fmod(x, y); } f.regs[I.dst + k] = fput(r, F_DOUBLE); }
			else { long double x = fget(a, F_X86), y = fget(b, F_X86), r; switch (I.sub) { case FO_ADD: r = x + y; break; case FO_SUB: r = x - y; break; case FO_MUL: r = x * y; break; case FO_DIV: r = x / y; break; default: r = fmodl(x, y); } f.regs[I.dst + k] = fput(r, F_X86); }
		}
		f.ip++;
		return;
	case I_FNEG:
		for (unsigned k = 0; k < I.nslots; k++) {
			Val a = getk(f, I.ops[0], k);
			if (a.e) f.regs[I.dst + k] = fromE(mkBin(O_XOR, a.e, mkConst((u128)1 << (I.w - 1), I.w)));
			else f.regs[I.dst + k] = fput(-fget(a, I.fk), I.fk);
		}
		f.ip++;
		return;
	case I_FCMP: {
		concReg(*this, s, fp, I.ops[0], I.w, "floating point"); concReg(*this, s, fp, I.ops[1], I.w, "floating point");
		long double a = fget(get(f, I.ops[0]), I.fk), b = fget(get(f, I.ops[1]), I.fk);
		bool un = std::isnan(a) || std::isnan(b), r;
		unsigned p = I.sub; // bit0 EQ, bit1 GT, bit2 LT, bit3 UNO
		r = (p & 8 && un) || (!un && ((p & 1 && a == b) || (p & 2 && a > b) || (p & 4 && a < b)));
		f.regs[I.dst] = VC(r);
		f.ip++;
		return;
	}
	case I_ICMP:
		for (unsigned k = 0; k < I.nslots; k++) {
			Val a = getk(f, I.ops[0], k), b = getk(f, I.ops[1], k);
			if (!a.e && !b.e && I.w <= 64) {
				bool r;
				switch ((Op)I.sub) {
				case O_EQ: r = a.v == b.v; break;
				case O_ULT: r = a.v < b.v; break;
				case O_ULE: r = a.v <= b.v; break;
				default: r = binEval((Op)I.sub, a.v, b.v, I.w) != 0;
				}
				f.regs[I.dst + k] = VC(r != I.flag);
			} else {
				E e = mkBin((Op)I.sub, toE(a, I.w), toE(b, I.w));
				f.regs[I.dst + k] = fromE(I.flag ? mkNot(e) : e);
			}
		}
		f.ip++;
		return;
	case I_CAST:
		for (unsigned k = 0; k < I.nslots; k++) {
			Val a = getk(f, I.ops[0], k);
			Val r;
			switch (I.sub) {
			case C_TRUNC: if (a.e) r = fromE(mkTrunc(a.e, I.rw)); else { u128 x = ((u128)a.v | (u128)a.h << 64) & maskw(I.rw); r = Val{ (uint64_t)x, (uint64_t)(x >> 64), nullptr }; } break;
			case C_ZEXT: if (a.e) r = fromE(mkZExt(a.e, I.rw)); else r = a; break;
			case C_SEXT: if (a.e) r = fromE(mkSExt(a.e, I.rw)); else { u128 x = (u128)sextw((u128)a.v | (u128)a.h << 64, I.w) & maskw(I.rw); r = Val{ (uint64_t)x, (uint64_t)(x >> 64), nullptr }; } break;
			case C_BITCAST: r = a; break;
			default: {
				if (a.e) { a = VC(conc(s, a, I.w, "floating point conversion")); }
				switch (I.sub) {
				case C_FPTOUI: { long double x = fget(a, I.fk); r = VC(x < 0 ? (uint64_t)(int64_t)x : (uint64_t)x); if (I.rw < 64) r.v &= (1ull << I.rw) - 1; break; }
				case C_FPTOSI: { r = VC((uint64_t)(int64_t)fget(a, I.fk)); if (I.rw < 64) r.v &= (1ull << I.rw) - 1; break; }
				case C_UITOFP: if (I.fk == F_FLOAT) { float x = (float)a.v; r = fput(x, F_FLOAT); } else r = fput(I.fk == F_DOUBLE ? (long double)(double)a.v : (long double)a.v, I.fk); break;
				case C_SITOFP: { int64_t x = (int64_t)sextw(a.v, I.w); if (I.fk == F_FLOAT) r = fput((float)x, F_FLOAT); else if (I.fk == F_DOUBLE) r = fput((double)x, F_DOUBLE); else r = fput((long double)x, F_X86); break; }
				default: r = fput(fget(a, I.fk), (FKind)I.imm);
				}
			}
			}
			s.th[s.cur].fr.back().regs[I.dst + k] = r;
		}
		f.ip++;
		return;
	case I_SELECT: {
		for (unsigned k = 0; k < I.nslots; k++) {
			Val c = getk(f, I.ops[0], I.flag ? k : 0), a = getk(f, I.ops[1], k), b = getk(f, I.ops[2], k);
			if (!c.e) f.regs[I.dst + k] = (c.v & 1) ? a : b;
			else if (!a.e && !b.e && a.v == b.v && a.h == b.h) f.regs[I.dst + k] = a;
			else {
				unsigned w = I.ty->leaves[k].w;
				f.regs[I.dst + k] = fromE(mkITE(c.e, toE(a, w), toE(b, w)));
			}
		}
		f.ip++;
		return;
	}
	case I_ALLOCA: {
		uint64_t n = I.ops[0].slot < 0 ? f.f->pool[~I.ops[0].slot].v : conc(s, get(f, I.ops[0]), 64, "a size");
		uint64_t a = alloc(s, I.imm * n, K_STACK, true);
		f.allocas.push_back(a);
		f.regs[I.dst] = VC(a);
		f.ip++;
		return;
	}
	case I_LOAD: {
		Val a = get(f, I.ops[0]);
		if (I.flag) {
			if (schedPoint(s)) return;
			uint64_t ad = conc(s, a, 64, "an address");
			auto it = s.atomVC.find(ad);
			if (it != s.atomVC.end() && (I.imm & 1)) s.th[s.cur].vc.join(it->second);
			for (size_t k = 0; k < I.ty->leaves.size(); k++) { auto& l = I.ty->leaves[k]; s.th[s.cur].fr.back().regs[I.dst + k] = loadLeaf(s, ad + l.off, l.w, l.store, false); }
			s.th[s.cur].fr.back().ip++;
			return;
		}
		if (I.ty->leaves.size() == 1) {
			auto& l = I.ty->leaves[0];
			Val r = a.e ? loadVal(s, a, l.w, l.store) : loadLeaf(s, a.v, l.w, l.store);
			f.regs[I.dst] = r;
		} else {
			uint64_t ad = conc(s, a, 64, "an address");
			for (size_t k = 0; k < I.ty->leaves.size(); k++) { auto& l = I.ty->leaves[k]; f.regs[I.dst + k] = loadLeaf(s, ad + l.off, l.w, l.store); }
		}
		f.ip++;
		return;
	}
	case I_STORE: {
		Val a = get(f, I.ops[1]);
		if (I.flag && schedPoint(s)) return;
		uint64_t ad = a.e ? conc(s, a, 64, "an address") : a.v;
		if (a.e && I.ops[1].slot >= 0) f.regs[I.ops[1].slot] = VC(ad);
		for (size_t k = 0; k < I.ty->leaves.size(); k++) { auto& l = I.ty->leaves[k]; storeLeaf(s, ad + l.off, getk(f, I.ops[0], (unsigned)k), l.w, l.store, !I.flag); }
		if (I.flag) { auto& T = s.th[s.cur]; auto& v = s.atomVC[ad]; if (I.imm & 2) { v = T.vc; T.vc.c[s.cur]++; } else v = VC_(); s.syncOps++; }
		f.ip++;
		return;
	}
	case I_GEP: {
		Val b = get(f, I.ops[0]);
		bool sym = b.e != nullptr;
		for (auto& g : I.gep) if (get(f, g.idx).e) sym = true;
		if (!sym) {
			uint64_t r = b.v + I.imm;
			for (auto& g : I.gep) { uint64_t x = get(f, g.idx).v; if (g.w < 64) x = (uint64_t)sextw(x, g.w); r += x * g.scale; }
			f.regs[I.dst] = VC(r);
		} else {
			E r = mkBin(O_ADD, toE(b, 64), mkConst(I.imm, 64));
			for (auto& g : I.gep) {
				E x = toE(get(f, g.idx), g.w); if (g.w < 64) x = mkSExt(x, 64); else if (g.w > 64) x = mkTrunc(x, 64);
				r = mkBin(O_ADD, r, mkBin(O_MUL, x, mkConst(g.scale, 64)));
			}
			f.regs[I.dst] = fromE(r);
		}
		f.ip++;
		return;
	}
	case I_EXTRACTVAL: for (unsigned k = 0; k < I.nslots; k++) f.regs[I.dst + k] = getk(f, I.ops[0], (unsigned)I.imm + k); f.ip++; return;
	case I_INSERTVAL: {
		std::vector<Val> t(I.nslots);
		for (unsigned k = 0; k < I.nslots; k++) t[k] = getk(f, I.ops[0], k);
		for (unsigned k = 0; k < I.w; k++) t[I.imm + k] = getk(f, I.ops[1], k);
		for (unsigned k = 0; k < I.nslots; k++) f.regs[I.dst + k] = t[k];
		f.ip++;
		return;
	}
	case I_SHUF: {
		std::vector<Val> t;
		for (uint64_t m : I.swv) t.push_back(m < I.imm ? getk(f, I.ops[0], (unsigned)m) : getk(f, I.ops[1], (unsigned)(m - I.imm)));
		for (unsigned k = 0; k < I.nslots; k++) f.regs[I.dst + k] = t[k];
		f.ip++;
		return;
	}
	case I_ATOMICRMW: {
		if (schedPoint(s)) return;
		uint64_t ad = conc(s, get(f, I.ops[0]), 64, "an address");
		auto& l = I.ty->leaves[0];
		Val old = loadLeaf(s, ad, l.w, l.store, false), v = get(f, I.ops[1]);
		E x = toE(old, l.w), y = toE(v, l.w), r;
		switch (I.sub) { case 0: r = y; break; case 1: r = mkBin(O_ADD, x, y); break; case 2: r = mkBin(O_SUB, x, y); break; case 3: r = mkBin(O_AND, x, y); break; case 4: r = mkBin(O_OR, x, y); break; default: r = mkBin(O_XOR, x, y); }
		storeLeaf(s, ad, fromE(r), l.w, l.store, false);
		auto& T = s.th[s.cur]; auto& av = s.atomVC[ad];
		if (I.imm & 1) T.vc.join(av);
		if (I.imm & 2) { av.join(T.vc); T.vc.c[s.cur]++; }
		if (!(old.e == nullptr && isC(r) && (uint64_t)r->c == old.v)) s.syncOps++;
		f.regs[I.dst] = old;
		f.ip++;
		return;
	}
	case I_CMPXCHG: {
		if (schedPoint(s)) return;
		uint64_t ad = conc(s, get(f, I.ops[0]), 64, "an address");
		auto& l = I.ty->leaves[0];
		Val old = loadLeaf(s, ad, l.w, l.store, false);
		E eq = mkEq(toE(old, l.w), toE(get(f, I.ops[1]), l.w));
		bool ok = isC(eq) ? eq->c != 0 : decide(s, eq);
		auto& T = s.th[s.cur]; auto& av = s.atomVC[ad];
		if (ok) { storeLeaf(s, ad, get(f, I.ops[2]), l.w, l.store, false); if (I.imm & 1) T.vc.join(av); if (I.imm & 2) { av.join(T.vc); T.vc.c[s.cur]++; } s.syncOps++; }
		else if (I.imm & 1) T.vc.join(av);
		f.regs[I.dst] = old; f.regs[I.dst + 1] = VC(ok);
		f.ip++;
		return;
	}
	case I_FENCE: f.ip++; return;
	case I_FREEZE:
		for (unsigned k = 0; k < I.nslots; k++) {
			Val a = getk(f, I.ops[0], k);
			if (a.e && a.e->uninit && uninitMatters(s, mkEq(a.e, mkConst(ev(s, a.e), I.w)))) f.regs[I.dst + k] = fromE(newSym(s, I.w, "freeze", false));
			else f.regs[I.dst + k] = a;
		}
		f.ip++;
		return;
	default: {
		throw Incomplete{ "unsupported instruction at " + locOf(s) };
	}
	}
}

void Exec::doCall(State& s, const Inst& I) {
	Frame& f = s.th[s.cur].fr.back();
	if (I.flag) { f.ip++; return; } // inline asm: only compiler barriers / pause
	Function* fn = I.callee;
	if (!fn) {
		Val t = get(f, I.ops[0]);
		uint64_t a = conc(s, t, 64, "a call target");
		auto it = M.fbyAddr.find(a);
		if (it == M.fbyAddr.end()) violate(s, "memory", "call through an invalid function pointer");
		fn = it->second;
	}
	std::vector<Val> args;
	for (size_t k = 1; k < I.ops.size(); k++) { unsigned n = I.opSlots[k - 1] & 255; for (unsigned q = 0; q < n; q++) args.push_back(getk(f, I.ops[k], q)); }
	if (fn->defined) { pushFrame(s, fn, args, &I.opSlots); return; }
	native(s, I, fn, args);
}

State* Exec::initial() {
	auto* s = new State();
	s->model = std::make_shared<Model>();
	for (auto* fn : M.funcs) { (void)fn; }
	for (auto* g : M.globals) {
		Obj* o = newObj(g->addr, g->size, K_GLOBAL, false);
		if (g->size) memcpy(o->data, g->init.data(), g->size);
		o->ro = g->isConst;
		s->mem.put(o);
	}
	s->nextAddr = (g_nextAddr / (64 * SLOT) + 1) * 64 * SLOT;
	s->th.emplace_back();
	s->th[0].vc.c[0] = 1;
	return s;
}

void Exec::finishPath(State& s) {
	g_st.paths++;
	if (s.steps > g_st.maxSteps) g_st.maxSteps = s.steps;
	if (g_st.samples.size() < 4 || (g_st.paths & (g_st.paths - 1)) == 0) {
		std::string t;
		for (auto& i : inputsOf(s, *s.model)) { if (!t.empty()) t += " "; t += i.first + "=" + i.second; if (t.size() > 200) { t += "..."; break; } }
		if (s.sched.size()) { t += " schedule="; for (auto c : s.sched) t += (char)('0' + c); }
		if (g_st.samples.size() < 8) g_st.samples.push_back(t.empty() ? "(no inputs)" : t);
	}
}

void Exec::runState(State* sp) {
	State& s = *sp;
	g_evgen = s.evgen = ++g_genCounter;
	try {
		while (true) {
			step(s);
			if ((s.steps & 0x3fff) == 0) {
				if (s.steps > g_cfg.maxSteps) violate(s, "hang", "no end of execution within the step budget (endless loop)");
				if (g_cfg.deadline && wallNow() > g_cfg.deadline) throw Incomplete{ "time limit" };
			}
			// record the code that runs
			auto& T = s.th[s.cur];
			if (!T.fr.empty()) {
				Frame& f = T.fr.back();
				if (f.ip == 0) {
					auto& B = f.f->blocks[f.block];
					if (!B.insts.empty() && seenInst.insert(&B).second)
						for (auto& I : B.insts) if (I.raw && I.line) {
							std::vector<std::pair<std::string, std::string>> sc; scopesOf(I.raw, sc);
							for (auto& p : sc) if (p.second.find("stdex/") != std::string::npos) g_st.funcs.insert(p.first + "|" + p.second);
							static const char* lines = getenv("SXE_LINES"); // development aid: where execution went
							if (lines && M.files[I.file].find("stdex/") != std::string::npos) if (FILE* lf = fopen(lines, "a")) { fprintf(lf, "%s:%u\n", M.files[I.file].c_str(), I.line); fclose(lf); }
						}
				}
			}
		}
	} catch (PathDone&) {
	} catch (Incomplete& i) {
		g_st.incomplete.insert(i.why + (g_cfg.trace ? "\n" + stackOf(s) : ""));
	}
	delete sp;
}
