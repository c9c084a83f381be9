// Hash-consed bit-vector expressions, their simplifying constructors and evaluation.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <memory>
#include <bitset>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
	O_CONST, O_SYM,
	O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
	O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
	O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
	O_ITE, O_CONCAT, O_EXTRACT, O_SEXT, O_TAB
};

typedef std::vector<uint32_t> Support; // sorted symbol ids, interned
typedef std::bitset<256> Set256;

struct Expr {
	Op op;
	bool uninit;          // depends on an uninitialised byte
	uint16_t w;           // width in bits (1..128)
	uint32_t id;
	u128 c;               // constant value; symbol id; extract: low bit; table: table id
	const Expr* a[3];
	uint16_t h = 0;       // height of the expression, up to 60000
	const Support* sup;
	mutable uint64_t evgen = 0;
	mutable u128 ev = 0;
	mutable const Set256* ts = nullptr; // for 1-bit expressions of one 8-bit symbol
	mutable void* z3 = nullptr;
	mutable uint64_t rlo = 0, rhi = 0; mutable bool rk = false; // interval, once known
};
typedef const Expr* E;

struct SymInfo {
	uint16_t w;
	bool uninit;
	std::string name;
	E e;
};
extern std::vector<SymInfo> g_syms;

struct Model {
	std::vector<uint64_t> v; // by symbol id; missing = default
	uint64_t get(uint32_t s) const { return s < v.size() ? v[s] : 0; }
	void set(uint32_t s, uint64_t x) { if (s >= v.size()) v.resize(s + 1, 0); v[s] = x; }
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); return (i128)(((v & maskw(w)) ^ m) - m); }

#include <unordered_map>
extern std::unordered_map<E, std::pair<u128, u128>> g_symRange;
E mkConst(u128 v, unsigned w);
E mkSym(unsigned w, const std::string& name, bool uninit);
E mkBin(Op op, E a, E b);
E mkITE(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkNot(E a); // 1-bit
E mkEq(E a, E b);
E mkTab(const std::vector<u128>& t, E idx, unsigned w); // t has 2^idx->w entries (idx->w <= 8)
static inline E mkTrunc(E a, unsigned w) { return mkExtract(a, 0, w); }
static inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
static inline bool isC(E e) { return e->op == O_CONST; }
const std::vector<u128>& tabOf(E e);

extern uint64_t g_evgen;           // bump whenever the evaluation model changes
u128 evalIn(E e, const Model& m);  // memoised under g_evgen
u128 evalNoMemo(E e, const Model& m);
u128 binEval(Op op, u128 a, u128 b, unsigned w);
const Set256* truthSet(E e);       // e: 1-bit with support {one 8-bit symbol}; else nullptr
std::vector<u128> unaryTable(E e); // e: support {one symbol of width<=8}: values by symbol value
std::string exprStr(E e, int depth = 6);
extern uint64_t g_nexpr;
