// Pre-decoded LLVM IR.
#pragma once
#include "expr.h"
#include <string>
#include <vector>
#include <unordered_map>

struct Val { uint64_t v; uint64_t h; E e; };
static inline Val VC(uint64_t x) { return Val{ x, 0, nullptr }; }

enum IOp : uint8_t {
	I_RET, I_BR, I_CONDBR, I_SWITCH, I_UNREACHABLE, I_CALL, I_INVOKE, I_RESUME, I_LANDINGPAD,
	I_BIN, I_FBIN, I_ICMP, I_FCMP, I_FNEG, I_CAST, I_SELECT, I_ALLOCA, I_LOAD, I_STORE, I_GEP,
	I_EXTRACTVAL, I_INSERTVAL, I_ATOMICRMW, I_CMPXCHG, I_FENCE, I_FREEZE, I_PHI, I_UNSUPPORTED,
	I_SHUF
};
enum Cast : uint8_t { C_TRUNC, C_ZEXT, C_SEXT, C_BITCAST, C_FPTOUI, C_FPTOSI, C_UITOFP, C_SITOFP, C_FPTRUNC, C_FPEXT };
enum FKind : uint8_t { F_NONE, F_FLOAT, F_DOUBLE, F_X86 };
enum FOp : uint8_t { FO_ADD, FO_SUB, FO_MUL, FO_DIV, FO_REM };

struct Leaf { uint32_t off; uint16_t w; FKind f; uint16_t store; };
struct TypeInfo { std::vector<Leaf> leaves; uint64_t size; uint64_t align; };

struct Opnd { int32_t slot; };  // >=0: register; <0: constant pool entry ~slot
struct PhiMove { int32_t dst; Opnd src; uint16_t n; };
struct Edge { uint32_t target; std::vector<PhiMove> moves; };

struct GepStep { Opnd idx; uint64_t scale; uint16_t w; };
struct Clause { bool filter; std::vector<uint64_t> types; }; // 0 = catch-all
struct Function;

struct Inst {
	IOp op;
	uint8_t sub = 0;       // Op / Cast / FOp / predicate / rmw op
	FKind fk = F_NONE;
	bool flag = false;     // icmp negate / atomic / varargs ...
	uint16_t w = 0;        // operand width
	uint16_t rw = 0;       // result width
	uint16_t nslots = 0;
	int32_t dst = -1;
	std::vector<Opnd> ops;
	std::vector<uint16_t> opSlots; // calls: slots per argument; and widths
	const TypeInfo* ty = nullptr;
	std::vector<Edge> edges;
	std::vector<uint64_t> swv;     // switch values
	uint64_t imm = 0;
	std::vector<GepStep> gep;
	std::vector<Clause> clauses;
	bool cleanup = false;
	Function* callee = nullptr;
	uint32_t file = 0, line = 0;
	void* raw = nullptr;
};
struct Block { std::vector<Inst> insts; };
struct Function {
	std::string name;
	bool defined = false, variadic = false, isVoid = false;
	std::vector<Block> blocks;
	uint32_t nregs = 0;
	std::vector<int32_t> argSlot; // first slot of each parameter
	std::vector<uint16_t> argN;
	std::vector<uint16_t> argW;
	std::vector<uint64_t> argByval; // size or 0
	uint16_t retSlots = 0;
	uint64_t addr = 0;
	int native = -1;
	std::vector<Val> pool; // constants
	void* raw = nullptr;
	bool entered = false;
};
struct GlobalVar {
	std::string name; uint64_t addr = 0, size = 0; bool isConst = false, defined = false;
	std::vector<uint8_t> init;
	std::vector<uint8_t> undef; // 1 = undefined byte
	bool tls = false;
};
struct Module {
	std::vector<Function*> funcs;
	std::unordered_map<std::string, Function*> fbyName;
	std::unordered_map<uint64_t, Function*> fbyAddr;
	std::vector<GlobalVar*> globals;
	std::unordered_map<std::string, GlobalVar*> gbyName;
	std::unordered_map<uint64_t, GlobalVar*> gbyAddr;
	std::vector<std::string> files;
	std::vector<Function*> ctors;
};
extern Module M;
extern uint64_t g_nextAddr;
static const uint64_t SLOT = 1ull << 20;
static const uint64_t BASE = 0x100000000000ull;
uint64_t reserveAddr(uint64_t size);
bool loadModule(const char* path, std::string& err);
void decodeFunction(Function* f); // lazily

void scopesOf(void* inst, std::vector<std::pair<std::string, std::string>>& out);
