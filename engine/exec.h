#pragma once
#include "solver.h"
#include <unordered_set>

struct Violation { std::string kind, msg, loc; std::vector<std::pair<std::string, std::string>> inputs; std::vector<uint8_t> sched; std::string stack; uint64_t count = 1; };
struct CaseStats {
	uint64_t paths = 0, states = 0, insts = 0, forks = 0, assertsSym = 0, assertsConc = 0, assertsIdent = 0, maxSteps = 0, assumeKilled = 0, schedules = 0, maxSyms = 0;
	std::map<std::string, uint64_t> covers;
	std::map<std::string, Violation> viol;
	std::set<std::string> incomplete;
	std::set<std::string> funcs; // mangled|file
	std::vector<std::string> samples;
};
struct Config {
	uint64_t maxSteps = 20000000;
	int preemptBound = 2, spurious = 0;
	int tier = 0;
	bool replay = false;
	bool trace = false;
	std::vector<std::pair<std::string, std::string>> rin; // replay inputs (hex)
	std::vector<uint8_t> rsched;
	double deadline = 0; // wall clock
};
extern Config g_cfg;
extern CaseStats g_st;
double wallNow();

struct Exec {
	std::vector<State*> work;
	State* S = nullptr;
	std::string caseName;
	Function* caseFn = nullptr;
	std::vector<std::pair<std::string, uint64_t>> coverSeen;
	std::unordered_set<void*> seenInst;

	State* initial();
	void runState(State* s);      // until it ends
	void violate(State& s, const std::string& kind, const std::string& msg, std::shared_ptr<Model> m = nullptr, bool end = true);

	// values
	Val get(Frame& f, Opnd o) { return o.slot >= 0 ? f.regs[o.slot] : f.f->pool[~o.slot]; }
	Val getk(Frame& f, Opnd o, unsigned k) { return o.slot >= 0 ? f.regs[o.slot + k] : f.f->pool[~o.slot + k]; }
	E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst((u128)v.v | (u128)v.h << 64, w); }
	Val fromE(E e) { if (isC(e)) return Val{ (uint64_t)e->c, (uint64_t)(e->c >> 64), nullptr }; return Val{ 0, 0, e }; }
	u128 ev(State& s, E e);
	uint64_t conc(State& s, const Val& v, unsigned w, const char* what);
	void setModel(State& s, std::shared_ptr<Model> m);
	State* forkWith(State& s, E c, std::shared_ptr<Model> m);
	bool decide(State& s, E c);   // branch on a symbolic condition: forks the other side, returns this side
	void checkUninit(State& s, E c, const char* what);
	bool provable(State& s, E c, const char* kind, const char* msg);

	// memory
	Obj* access(State& s, uint64_t addr, uint64_t size, bool write, const char* what, bool race = true);
	Val loadLeaf(State& s, uint64_t addr, unsigned w, unsigned bytes, bool race = true);
	void storeLeaf(State& s, uint64_t addr, const Val& v, unsigned w, unsigned bytes, bool race = true);
	Val loadVal(State& s, const Val& addr, unsigned w, unsigned bytes);
	uint64_t addrOf(State& s, const Val& a, uint64_t size, const char* what);
	E loadByte(State& s, uint64_t addr);
	void storeByte(State& s, uint64_t addr, E e);
	void copyBytes(State& s, uint64_t d, uint64_t src, uint64_t n);
	uint64_t alloc(State& s, uint64_t size, ObjKind k, bool uninit);
	void release(State& s, uint64_t addr, ObjKind k);
	void raceCheck(State& s, Obj* o, uint64_t off, uint64_t n, bool write);
	std::string cstr(State& s, uint64_t a);
	uint64_t rd64(State& s, uint64_t a) { Val v = loadLeaf(s, a, 64, 8, false); return conc(s, v, 64, "internal read"); }
	E newSym(State& s, unsigned w, const std::string& name, bool uninit);

	// control
	void step(State& s);
	void takeEdge(State& s, Frame& f, const Edge& e);
	void advance(State& s, Frame& f);
	void pushFrame(State& s, Function* fn, const std::vector<Val>& args, const std::vector<uint16_t>* meta);
	void popFrame(State& s);
	void doReturn(State& s, const std::vector<Val>& rv);
	void doCall(State& s, const Inst& I);
	void unwind(State& s);
	bool matchClause(State& s, const Clause& c, uint64_t ti, uint64_t& adj, uint64_t obj, uint64_t& hit);
	bool isBase(uint64_t thrown, uint64_t want, int64_t& off);
	void throwExc(State& s, uint64_t addr);
	bool intrinsic(State& s, const Inst& I, const std::string& n, std::vector<Val>& a);
	void native(State& s, const Inst& I, Function* fn, std::vector<Val>& a);
	void setRes(State& s, const Inst& I, Val v) { if (I.dst >= 0) s.th[s.cur].fr.back().regs[I.dst] = v; }

	// threads
	bool runnable(State& s, int t);
	bool schedPoint(State& s);
	void block(State& s);
	void switchTo(State& s, int t);
	int alive(State& s);
	void finishPath(State& s);
	std::vector<std::pair<std::string, std::string>> inputsOf(State& s, const Model& m);
	std::string stackOf(State& s);
	std::string locOf(State& s);
};
std::string demangle(const std::string& n);
