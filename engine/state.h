#pragma once
#include "ir.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <cstring>

enum ObjKind : uint8_t { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_EXC, K_VA, K_FUNC, K_TLS };

static const int MAXT = 5;
struct RaceCell { int8_t wt = -1; uint32_t wc = 0; uint32_t rc[MAXT] = {}; };

struct Obj {
	int refs = 1;
	uint64_t base = 0, size = 0;
	ObjKind kind = K_GLOBAL;
	bool ro = false, freed = false;
	uint8_t* data = nullptr;
	uint8_t* tag = nullptr;  // null: all concrete; 0 concrete, 1 symbolic, 2 uninitialised
	E* sym = nullptr;
	RaceCell* race = nullptr;
	uint32_t serial = 0;
};
Obj* newObj(uint64_t base, uint64_t size, ObjKind k, bool uninit);
Obj* cloneObj(const Obj* o);
void unref(Obj* o);

struct Chunk { int refs = 1; Obj* o[64] = {}; };
struct Memory {
	std::vector<Chunk*> ch;
	Memory() {}
	Memory(const Memory& m) : ch(m.ch) { for (auto* c : ch) if (c) c->refs++; }
	Memory& operator=(const Memory&) = delete;
	~Memory() { for (auto* c : ch) drop(c); }
	static void drop(Chunk* c) { if (c && --c->refs == 0) { for (auto* o : c->o) if (o) unref(o); delete c; } }
	static size_t idx(uint64_t a) { return (size_t)((a - BASE) / SLOT); }
	Obj* find(uint64_t a) const {
		if (a < BASE) return nullptr;
		size_t i = idx(a);
		if (i / 64 >= ch.size() || !ch[i / 64]) return nullptr;
		return ch[i / 64]->o[i % 64];
	}
	Chunk* wchunk(size_t ci) {
		if (ci >= ch.size()) ch.resize(ci + 1, nullptr);
		if (!ch[ci]) ch[ci] = new Chunk();
		else if (ch[ci]->refs > 1) {
			auto* n = new Chunk();
			for (int k = 0; k < 64; k++) { n->o[k] = ch[ci]->o[k]; if (n->o[k]) n->o[k]->refs++; }
			ch[ci]->refs--; ch[ci] = n;
		}
		return ch[ci];
	}
	void put(Obj* o) { // takes ownership of one reference
		size_t a = idx(o->base), b = idx(o->base + (o->size ? o->size - 1 : 0));
		for (size_t i = a; i <= b; i++) {
			auto* c = wchunk(i / 64);
			if (c->o[i % 64]) unref(c->o[i % 64]);
			c->o[i % 64] = o;
			if (i != a) o->refs++;
		}
	}
	Obj* writable(Obj* o) {
		size_t a = idx(o->base), b = idx(o->base + (o->size ? o->size - 1 : 0));
		auto* c = wchunk(a / 64);
		o = c->o[a % 64];
		if (o->refs > (int)(b - a + 1)) {
			Obj* n = cloneObj(o);
			for (size_t i = a; i <= b; i++) {
				auto* cc = wchunk(i / 64);
				unref(cc->o[i % 64]);
				cc->o[i % 64] = n;
				if (i != a) n->refs++;
			}
			return n;
		}
		return o;
	}
};

struct Frame {
	Function* f;
	uint32_t block = 0, ip = 0;
	std::vector<Val> regs;
	std::vector<uint64_t> allocas;
	uint64_t va = 0;            // variadic area
	// how to resume the caller: the caller's current instruction is its call/invoke
	uint8_t special = 0;        // 1: returning from a destructor called by __cxa_end_catch etc. (advance caller), 2: thread entry, 3: ctor
	uint64_t specialArg = 0;
};
struct VC_ { uint32_t c[MAXT] = {}; void join(const VC_& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum TStat : uint8_t { T_RUN, T_MUTEX, T_COND, T_CONDLOCK, T_JOIN, T_DONE, T_YIELD };
struct Thread {
	std::vector<Frame> fr;
	TStat st = T_RUN;
	bool reader = false;   // waits for shared ownership
	uint64_t waitOn = 0;   // mutex / cond address / thread id
	uint64_t condMutex = 0;
	bool timed = false, timedOut = false;
	Val deadline;
	VC_ vc;
	std::vector<uint64_t> caught; // stack of exception addresses being handled
	uint64_t inflight = 0;
	bool skipSched = false;
	uint64_t progress = 0; uint32_t spin = 0;
};
struct Mutex { int owner = -1; int depth = 0; VC_ vc; int rd[MAXT] = {}; VC_ rvc; int readers() const { int n = 0; for (int x : rd) n += x; return n; } };
struct ExcRec { uint64_t addr, ti, dtor; int handlers; uint64_t adjusted; int refs; };
struct Input { std::string name; std::shared_ptr<std::vector<uint32_t>> syms; };
struct State {
	Memory mem;
	std::vector<Thread> th;
	int cur = 0;
	std::vector<E> pc;
	std::vector<Set256> dom;  // by symbol id, valid where domSet
	std::vector<bool> domSet;
	std::vector<uint8_t> multi; // symbol occurs in a constraint over several symbols
	std::shared_ptr<Model> model;
	std::vector<Input> inputs;
	uint32_t nsym = 0;
	uint64_t nextAddr = 0;
	uint32_t nserial = 0;
	std::map<uint64_t, Mutex> mtx;
	std::map<uint64_t, VC_> atomVC;
	std::vector<ExcRec> exc;
	uint64_t steps = 0, forks = 0;
	int preempt = 0, spurious = 0;
	std::vector<uint8_t> sched;
	Val now{ 1000000000ull, 0, nullptr };
	int64_t live = 0; // live heap blocks
	bool wiped = false; // blocks must be overwritten with zeros before they are given back
	uint64_t evgen = 0;
	std::vector<uint64_t> atexit_;
	uint32_t depth = 0;
	bool mt = false;
	std::vector<std::pair<uint64_t,uint64_t>> errs;
	uint64_t syncOps = 0;
	std::string trace;
};

struct PathDone {};
struct Incomplete { std::string why; };
