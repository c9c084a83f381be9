#include "ir.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cstdio>
#include <cstring>
#include <map>

Module M;
uint64_t g_nextAddr = BASE;
static llvm::LLVMContext* LC;
static std::unique_ptr<llvm::Module> LM;
static const llvm::DataLayout* DL;
static std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
static std::unordered_map<llvm::Type*, TypeInfo*> tinfo;
static std::unordered_map<std::string, uint32_t> fileIdx;

uint64_t reserveAddr(uint64_t size) {
	uint64_t a = g_nextAddr;
	g_nextAddr += (size / SLOT + 1) * SLOT;
	return a;
}

static void leaves(llvm::Type* t, uint64_t off, std::vector<Leaf>& out) {
	if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); out.push_back({ (uint32_t)off, (uint16_t)w, F_NONE, (uint16_t)((w + 7) / 8) }); }
	else if (t->isPointerTy()) out.push_back({ (uint32_t)off, 64, F_NONE, 8 });
	else if (t->isFloatTy()) out.push_back({ (uint32_t)off, 32, F_FLOAT, 4 });
	else if (t->isDoubleTy()) out.push_back({ (uint32_t)off, 64, F_DOUBLE, 8 });
	else if (t->isX86_FP80Ty()) out.push_back({ (uint32_t)off, 80, F_X86, 10 });
	else if (auto* s = llvm::dyn_cast<llvm::StructType>(t)) {
		auto* sl = DL->getStructLayout(s);
		for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + sl->getElementOffset(i), out);
	} else if (auto* a = llvm::dyn_cast<llvm::ArrayType>(t)) {
		uint64_t es = DL->getTypeAllocSize(a->getElementType());
		for (uint64_t i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * es, out);
	} else if (auto* v = llvm::dyn_cast<llvm::FixedVectorType>(t)) {
		uint64_t es = DL->getTypeStoreSize(v->getElementType());
		for (unsigned i = 0; i < v->getNumElements(); i++) leaves(v->getElementType(), off + i * es, out);
	} else if (!t->isVoidTy() && !t->isMetadataTy() && !t->isTokenTy()) { fprintf(stderr, "sxe: unsupported type\n"); }
}
static const TypeInfo* info(llvm::Type* t) {
	auto it = tinfo.find(t);
	if (it != tinfo.end()) return it->second;
	auto* r = new TypeInfo();
	if (!t->isVoidTy() && !t->isMetadataTy() && !t->isTokenTy() && !t->isLabelTy()) {
		if (t->isAggregateType() && DL->getTypeAllocSize(t) > 4096) { /* alloca element type: leaves not needed */ }
		else leaves(t, 0, r->leaves);
		r->size = DL->getTypeAllocSize(t); r->align = DL->getABITypeAlign(t).value();
	} else { r->size = 0; r->align = 1; }
	tinfo[t] = r;
	return r;
}
static unsigned nslots(llvm::Type* t) { return (unsigned)info(t)->leaves.size(); }
static unsigned widthOf(llvm::Type* t) {
	if (auto* v = llvm::dyn_cast<llvm::FixedVectorType>(t)) t = v->getElementType();
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isPointerTy()) return 64;
	if (t->isFloatTy()) return 32;
	if (t->isDoubleTy()) return 64;
	if (t->isX86_FP80Ty()) return 80;
	return 0;
}
static FKind fkOf(llvm::Type* t) {
	if (auto* v = llvm::dyn_cast<llvm::FixedVectorType>(t)) t = v->getElementType();
	return t->isFloatTy() ? F_FLOAT : t->isDoubleTy() ? F_DOUBLE : t->isX86_FP80Ty() ? F_X86 : F_NONE;
}

static u128 constInt(const llvm::Constant* c, bool& undef);
static u128 constExpr(const llvm::ConstantExpr* ce, bool& undef) {
	switch (ce->getOpcode()) {
	case llvm::Instruction::GetElementPtr: {
		llvm::APInt off(64, 0);
		auto* g = llvm::cast<llvm::GEPOperator>(ce);
		if (!g->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "sxe: constant GEP\n"); abort(); }
		return (uint64_t)((uint64_t)constInt(llvm::cast<llvm::Constant>(g->getPointerOperand()), undef) + off.getZExtValue());
	}
	case llvm::Instruction::BitCast: case llvm::Instruction::IntToPtr: case llvm::Instruction::PtrToInt: case llvm::Instruction::ZExt: case llvm::Instruction::AddrSpaceCast:
		return constInt(ce->getOperand(0), undef) & maskw(widthOf(ce->getType()));
	case llvm::Instruction::Trunc: return constInt(ce->getOperand(0), undef) & maskw(widthOf(ce->getType()));
	case llvm::Instruction::Add: return binEval(O_ADD, constInt(ce->getOperand(0), undef), constInt(ce->getOperand(1), undef), widthOf(ce->getType()));
	case llvm::Instruction::Sub: return binEval(O_SUB, constInt(ce->getOperand(0), undef), constInt(ce->getOperand(1), undef), widthOf(ce->getType()));
	case llvm::Instruction::And: return binEval(O_AND, constInt(ce->getOperand(0), undef), constInt(ce->getOperand(1), undef), widthOf(ce->getType()));
	case llvm::Instruction::ICmp: {
		u128 a = constInt(ce->getOperand(0), undef), b = constInt(ce->getOperand(1), undef);
		switch (ce->getPredicate()) {
		case llvm::CmpInst::ICMP_EQ: return a == b; case llvm::CmpInst::ICMP_NE: return a != b;
		case llvm::CmpInst::ICMP_ULT: return a < b; case llvm::CmpInst::ICMP_UGT: return a > b;
		default: break;
		}
		break;
	}
	default: break;
	}
	fprintf(stderr, "sxe: unsupported constant expression %s\n", ce->getOpcodeName()); abort();
}
static u128 constInt(const llvm::Constant* c, bool& undef) {
	if (auto* i = llvm::dyn_cast<llvm::ConstantInt>(c)) {
		auto& a = i->getValue(); u128 r = a.getRawData()[0]; if (a.getNumWords() > 1) r |= (u128)a.getRawData()[1] << 64; return r;
	}
	if (auto* f = llvm::dyn_cast<llvm::ConstantFP>(c)) {
		llvm::APInt a = f->getValueAPF().bitcastToAPInt(); u128 r = a.getRawData()[0]; if (a.getNumWords() > 1) r |= (u128)a.getRawData()[1] << 64; return r;
	}
	if (llvm::isa<llvm::ConstantPointerNull>(c)) return 0;
	if (llvm::isa<llvm::UndefValue>(c)) { undef = true; return 0; }
	if (llvm::isa<llvm::ConstantAggregateZero>(c)) return 0;
	if (auto* a = llvm::dyn_cast<llvm::GlobalAlias>(c)) return constInt(a->getAliasee(), undef);
	if (auto* g = llvm::dyn_cast<llvm::GlobalValue>(c)) {
		auto it = gaddr.find(g);
		if (it == gaddr.end()) { fprintf(stderr, "sxe: global without address: %s\n", g->getName().str().c_str()); abort(); }
		return it->second;
	}
	if (auto* ce = llvm::dyn_cast<llvm::ConstantExpr>(c)) return constExpr(ce, undef);
	if (auto* de = llvm::dyn_cast<llvm::DSOLocalEquivalent>(c)) return constInt(de->getGlobalValue(), undef);
	fprintf(stderr, "sxe: unsupported constant\n"); abort();
}
static void flatten(const llvm::Constant* c, std::vector<Val>& out) {
	llvm::Type* t = c->getType();
	if (t->isAggregateType() || t->isVectorTy()) {
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : llvm::cast<llvm::FixedVectorType>(t)->getNumElements();
		for (unsigned i = 0; i < n; i++) flatten(c->getAggregateElement(i), out);
		return;
	}
	bool u = false;
	u128 v = constInt(c, u);
	if (u) out.push_back(Val{ 0, 0, mkSym(widthOf(t), "undef", true) });
	else out.push_back(Val{ (uint64_t)v, (uint64_t)(v >> 64), nullptr });
}
static void writeConst(const llvm::Constant* c, uint64_t off, GlobalVar* g) {
	llvm::Type* t = c->getType();
	if (llvm::isa<llvm::ConstantAggregateZero>(c)) return;
	if (llvm::isa<llvm::UndefValue>(c)) return;
	if (auto* cds = llvm::dyn_cast<llvm::ConstantDataSequential>(c)) {
		llvm::StringRef r = cds->getRawDataValues();
		memcpy(g->init.data() + off, r.data(), r.size());
		return;
	}
	if (t->isStructTy()) {
		auto* sl = DL->getStructLayout(llvm::cast<llvm::StructType>(t));
		for (unsigned i = 0; i < t->getStructNumElements(); i++) writeConst(c->getAggregateElement(i), off + sl->getElementOffset(i), g);
		return;
	}
	if (t->isArrayTy()) {
		uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
		for (unsigned i = 0; i < t->getArrayNumElements(); i++) writeConst(c->getAggregateElement(i), off + i * es, g);
		return;
	}
	bool u = false;
	u128 v = constInt(c, u);
	uint64_t sz = DL->getTypeStoreSize(t);
	for (uint64_t i = 0; i < sz && i < 16; i++) g->init[off + i] = (uint8_t)(v >> (8 * i));
}

bool loadModule(const char* path, std::string& err) {
	LC = new llvm::LLVMContext();
	llvm::SMDiagnostic d;
	LM = llvm::parseIRFile(path, d, *LC);
	if (!LM) { err = d.getMessage().str(); return false; }
	DL = &LM->getDataLayout();
	// addresses
	for (auto& f : LM->functions()) {
		auto* F = new Function();
		F->name = f.getName().str();
		F->defined = !f.isDeclaration();
		F->variadic = f.isVarArg();
		F->raw = &f;
		F->addr = reserveAddr(1);
		gaddr[&f] = F->addr;
		M.funcs.push_back(F);
		M.fbyName[F->name] = F;
		M.fbyAddr[F->addr] = F;
	}
	for (auto& g : LM->globals()) {
		auto* G = new GlobalVar();
		G->name = g.getName().str();
		if (g.getValueType()->isSized()) G->size = DL->getTypeAllocSize(g.getValueType());
		G->defined = g.hasInitializer();
		if (!G->defined && G->size < 64) G->size = 64;
		G->isConst = g.isConstant();
		G->tls = g.isThreadLocal();
		G->addr = reserveAddr(G->size);
		gaddr[&g] = G->addr;
		M.globals.push_back(G);
		M.gbyName[G->name] = G;
		M.gbyAddr[G->addr] = G;
	}
	for (auto& g : LM->globals()) {
		auto* G = M.gbyAddr[gaddr[&g]];
		G->init.assign(G->size, 0);
		if (g.hasInitializer() && G->name != "llvm.global_ctors" && G->name.compare(0, 9, "llvm.used") && G->name.compare(0, 13, "llvm.compiler")) writeConst(g.getInitializer(), 0, G);
		if (G->name == "llvm.global_ctors" && g.hasInitializer()) {
			if (auto* ca = llvm::dyn_cast<llvm::ConstantArray>(g.getInitializer())) {
				std::multimap<uint64_t, Function*> m;
				for (unsigned i = 0; i < ca->getNumOperands(); i++) {
					auto* s = llvm::cast<llvm::ConstantStruct>(ca->getOperand(i));
					if (auto* fn = llvm::dyn_cast<llvm::Function>(s->getOperand(1)))
						m.insert({ llvm::cast<llvm::ConstantInt>(s->getOperand(0))->getZExtValue(), M.fbyAddr[gaddr[fn]] });
				}
				for (auto& x : m) M.ctors.push_back(x.second);
			}
		}
	}
	return true;
}

void scopesOf(void* p, std::vector<std::pair<std::string, std::string>>& out) {
	auto* i = (llvm::Instruction*)(llvm::Value*)p;
	for (const llvm::DILocation* l = i->getDebugLoc().get(); l; l = l->getInlinedAt()) {
		auto* sp = l->getScope()->getSubprogram();
		if (!sp) continue;
		std::string n = sp->getLinkageName().str();
		if (n.empty()) n = sp->getName().str();
		out.push_back({ n, sp->getFilename().str() });
	}
}

static Op binop(unsigned o) {
	switch (o) {
	case llvm::Instruction::Add: return O_ADD; case llvm::Instruction::Sub: return O_SUB; case llvm::Instruction::Mul: return O_MUL;
	case llvm::Instruction::UDiv: return O_UDIV; case llvm::Instruction::SDiv: return O_SDIV; case llvm::Instruction::URem: return O_UREM; case llvm::Instruction::SRem: return O_SREM;
	case llvm::Instruction::And: return O_AND; case llvm::Instruction::Or: return O_OR; case llvm::Instruction::Xor: return O_XOR;
	case llvm::Instruction::Shl: return O_SHL; case llvm::Instruction::LShr: return O_LSHR; default: return O_ASHR;
	}
}

static uint64_t ord(llvm::AtomicOrdering o) {
	switch (o) {
	case llvm::AtomicOrdering::Acquire: return 1; case llvm::AtomicOrdering::Release: return 2;
	case llvm::AtomicOrdering::AcquireRelease: case llvm::AtomicOrdering::SequentiallyConsistent: return 3;
	default: return 0;
	}
}
void decodeFunction(Function* F) {
	auto* f = (llvm::Function*)F->raw;
	if (!F->blocks.empty() || f->isDeclaration()) return;
	std::unordered_map<const llvm::Value*, int32_t> reg;
	std::unordered_map<const llvm::BasicBlock*, uint32_t> bidx;
	int32_t next = 0;
	for (auto& a : f->args()) {
		unsigned n = nslots(a.getType());
		reg[&a] = next; F->argSlot.push_back(next); F->argN.push_back(n); F->argW.push_back(widthOf(a.getType()));
		F->argByval.push_back(a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()) : 0);
		next += n;
	}
	F->isVoid = f->getReturnType()->isVoidTy();
	F->retSlots = F->isVoid ? 0 : nslots(f->getReturnType());
	uint32_t bi = 0;
	for (auto& b : *f) { bidx[&b] = bi++; for (auto& i : b) if (!i.getType()->isVoidTy() && !i.getType()->isTokenTy()) { reg[&i] = next; next += nslots(i.getType()); } }
	F->nregs = next;
	std::unordered_map<const llvm::Constant*, int32_t> pool;
	auto op = [&](const llvm::Value* v) -> Opnd {
		if (auto* c = llvm::dyn_cast<llvm::Constant>(v)) {
			auto it = pool.find(c);
			if (it != pool.end()) return { it->second };
			int32_t at = (int32_t)F->pool.size();
			flatten(c, F->pool);
			pool[c] = ~at;
			return { ~at };
		}
		auto it = reg.find(v);
		if (it == reg.end()) return { ~0 };
		return { it->second };
	};
	F->blocks.resize(bi);
	auto edge = [&](const llvm::BasicBlock* from, const llvm::BasicBlock* to) {
		Edge e; e.target = bidx[to];
		for (auto& i : *to) {
			auto* phi = llvm::dyn_cast<llvm::PHINode>(&i);
			if (!phi) break;
			e.moves.push_back({ reg[phi], op(phi->getIncomingValueForBlock(from)), (uint16_t)nslots(phi->getType()) });
		}
		return e;
	};
	bi = 0;
	for (auto& b : *f) {
		auto& B = F->blocks[bi++];
		for (auto& i : b) {
			if (llvm::isa<llvm::PHINode>(i)) continue;
			if (auto* ii = llvm::dyn_cast<llvm::IntrinsicInst>(&i)) {
				switch (ii->getIntrinsicID()) {
				case llvm::Intrinsic::dbg_declare: case llvm::Intrinsic::dbg_value: case llvm::Intrinsic::dbg_label: case llvm::Intrinsic::dbg_assign:
				case llvm::Intrinsic::lifetime_end: case llvm::Intrinsic::lifetime_start: case llvm::Intrinsic::assume:
				case llvm::Intrinsic::experimental_noalias_scope_decl: case llvm::Intrinsic::invariant_start: case llvm::Intrinsic::invariant_end: case llvm::Intrinsic::donothing:
					if (!llvm::isa<llvm::InvokeInst>(i)) continue;
					break;
				default: break;
				}
			}
			Inst I;
			I.raw = (llvm::Value*)&i;
			if (auto* l = i.getDebugLoc().get()) {
				I.line = l->getLine();
				std::string fn = l->getFilename().str();
				auto it = fileIdx.find(fn);
				if (it == fileIdx.end()) { it = fileIdx.emplace(fn, (uint32_t)M.files.size()).first; M.files.push_back(fn); }
				I.file = it->second;
			}
			auto rt = i.getType();
			if (!rt->isVoidTy() && !rt->isTokenTy()) { I.dst = reg[&i]; I.nslots = nslots(rt); I.rw = widthOf(rt); }
			if (auto* x = llvm::dyn_cast<llvm::ReturnInst>(&i)) {
				I.op = I_RET; if (x->getReturnValue()) I.ops.push_back(op(x->getReturnValue()));
			} else if (auto* x = llvm::dyn_cast<llvm::BranchInst>(&i)) {
				if (x->isConditional()) { I.op = I_CONDBR; I.ops.push_back(op(x->getCondition())); I.edges.push_back(edge(&b, x->getSuccessor(0))); I.edges.push_back(edge(&b, x->getSuccessor(1))); }
				else { I.op = I_BR; I.edges.push_back(edge(&b, x->getSuccessor(0))); }
			} else if (auto* x = llvm::dyn_cast<llvm::SwitchInst>(&i)) {
				I.op = I_SWITCH; I.ops.push_back(op(x->getCondition())); I.w = widthOf(x->getCondition()->getType());
				I.edges.push_back(edge(&b, x->getDefaultDest()));
				for (auto& c : x->cases()) { I.swv.push_back(c.getCaseValue()->getZExtValue()); I.edges.push_back(edge(&b, c.getCaseSuccessor())); }
			} else if (llvm::isa<llvm::UnreachableInst>(i)) I.op = I_UNREACHABLE;
			else if (auto* x = llvm::dyn_cast<llvm::CallBase>(&i)) {
				I.op = llvm::isa<llvm::InvokeInst>(i) ? I_INVOKE : I_CALL;
				if (x->isInlineAsm()) { I.op = I_CALL; I.imm = 1; I.flag = true; I.callee = nullptr; I.ops.push_back({ ~0 }); B.insts.push_back(I); continue; }
				auto* cv = x->getCalledOperand()->stripPointerCasts();
				if (auto* al = llvm::dyn_cast<llvm::GlobalAlias>(cv)) cv = al->getAliaseeObject();
				if (auto* cf = llvm::dyn_cast<llvm::Function>(cv)) { I.callee = M.fbyAddr[gaddr[cf]]; I.ops.push_back({ ~0 }); }
				else I.ops.push_back(op(cv));
				for (auto& a : x->args()) {
					if (a->getType()->isMetadataTy()) continue;
					I.ops.push_back(op(a));
					I.opSlots.push_back(nslots(a->getType()) | (widthOf(a->getType()) << 8));
				}
				if (auto* inv = llvm::dyn_cast<llvm::InvokeInst>(x)) { I.edges.push_back(edge(&b, inv->getNormalDest())); I.edges.push_back(edge(&b, inv->getUnwindDest())); }
			} else if (auto* x = llvm::dyn_cast<llvm::ResumeInst>(&i)) { I.op = I_RESUME; I.ops.push_back(op(x->getValue())); }
			else if (auto* x = llvm::dyn_cast<llvm::LandingPadInst>(&i)) {
				I.op = I_LANDINGPAD; I.cleanup = x->isCleanup();
				for (unsigned k = 0; k < x->getNumClauses(); k++) {
					Clause c; c.filter = x->isFilter(k);
					auto* cc = x->getClause(k);
					bool u = false;
					if (c.filter) { auto* at = llvm::cast<llvm::ArrayType>(cc->getType()); for (unsigned q = 0; q < at->getNumElements(); q++) c.types.push_back((uint64_t)constInt(cc->getAggregateElement(q), u)); }
					else c.types.push_back((uint64_t)constInt(cc, u));
					I.clauses.push_back(c);
				}
			} else if (auto* x = llvm::dyn_cast<llvm::BinaryOperator>(&i)) {
				I.w = widthOf(rt); I.fk = fkOf(rt);
				if (I.fk != F_NONE) {
					I.op = I_FBIN;
					switch (x->getOpcode()) { case llvm::Instruction::FAdd: I.sub = FO_ADD; break; case llvm::Instruction::FSub: I.sub = FO_SUB; break; case llvm::Instruction::FMul: I.sub = FO_MUL; break; case llvm::Instruction::FDiv: I.sub = FO_DIV; break; default: I.sub = FO_REM; }
				} else { I.op = I_BIN; I.sub = binop(x->getOpcode()); }
				I.ops.push_back(op(x->getOperand(0))); I.ops.push_back(op(x->getOperand(1)));
			} else if (auto* x = llvm::dyn_cast<llvm::UnaryOperator>(&i)) { I.op = I_FNEG; I.fk = fkOf(rt); I.w = widthOf(rt); I.ops.push_back(op(x->getOperand(0))); }
			else if (auto* x = llvm::dyn_cast<llvm::ICmpInst>(&i)) {
				I.op = I_ICMP; I.w = widthOf(x->getOperand(0)->getType());
				Opnd a = op(x->getOperand(0)), c = op(x->getOperand(1));
				bool sw = false;
				switch (x->getPredicate()) {
				case llvm::CmpInst::ICMP_EQ: I.sub = O_EQ; break; case llvm::CmpInst::ICMP_NE: I.sub = O_EQ; I.flag = true; break;
				case llvm::CmpInst::ICMP_ULT: I.sub = O_ULT; break; case llvm::CmpInst::ICMP_ULE: I.sub = O_ULE; break;
				case llvm::CmpInst::ICMP_UGT: I.sub = O_ULT; sw = true; break; case llvm::CmpInst::ICMP_UGE: I.sub = O_ULE; sw = true; break;
				case llvm::CmpInst::ICMP_SLT: I.sub = O_SLT; break; case llvm::CmpInst::ICMP_SLE: I.sub = O_SLE; break;
				case llvm::CmpInst::ICMP_SGT: I.sub = O_SLT; sw = true; break; default: I.sub = O_SLE; sw = true; break;
				}
				if (sw) std::swap(a, c);
				I.ops = { a, c };
			} else if (auto* x = llvm::dyn_cast<llvm::FCmpInst>(&i)) { I.op = I_FCMP; I.sub = (uint8_t)x->getPredicate(); I.fk = fkOf(x->getOperand(0)->getType()); I.w = widthOf(x->getOperand(0)->getType()); I.ops = { op(x->getOperand(0)), op(x->getOperand(1)) }; }
			else if (auto* x = llvm::dyn_cast<llvm::CastInst>(&i)) {
				I.op = I_CAST; I.w = widthOf(x->getSrcTy()); I.ops = { op(x->getOperand(0)) };
				switch (x->getOpcode()) {
				case llvm::Instruction::Trunc: I.sub = C_TRUNC; break;
				case llvm::Instruction::ZExt: I.sub = C_ZEXT; break;
				case llvm::Instruction::SExt: I.sub = C_SEXT; break;
				case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: I.sub = I.rw < I.w ? C_TRUNC : C_ZEXT; break;
				case llvm::Instruction::BitCast: case llvm::Instruction::AddrSpaceCast: I.sub = C_BITCAST; if (nslots(x->getSrcTy()) != I.nslots) I.op = I_UNSUPPORTED; break;
				case llvm::Instruction::FPToUI: I.sub = C_FPTOUI; I.fk = fkOf(x->getSrcTy()); break;
				case llvm::Instruction::FPToSI: I.sub = C_FPTOSI; I.fk = fkOf(x->getSrcTy()); break;
				case llvm::Instruction::UIToFP: I.sub = C_UITOFP; I.fk = fkOf(rt); break;
				case llvm::Instruction::SIToFP: I.sub = C_SITOFP; I.fk = fkOf(rt); break;
				case llvm::Instruction::FPTrunc: I.sub = C_FPTRUNC; I.fk = fkOf(x->getSrcTy()); I.imm = fkOf(rt); break;
				default: I.sub = C_FPEXT; I.fk = fkOf(x->getSrcTy()); I.imm = fkOf(rt); break;
				}
			} else if (auto* x = llvm::dyn_cast<llvm::SelectInst>(&i)) {
				I.op = I_SELECT; I.ops = { op(x->getCondition()), op(x->getTrueValue()), op(x->getFalseValue()) };
				I.ty = info(rt); I.flag = x->getCondition()->getType()->isVectorTy();
			} else if (auto* x = llvm::dyn_cast<llvm::AllocaInst>(&i)) {
				I.op = I_ALLOCA; I.imm = DL->getTypeAllocSize(x->getAllocatedType()); I.ops = { op(x->getArraySize()) };
			} else if (auto* x = llvm::dyn_cast<llvm::LoadInst>(&i)) { I.op = I_LOAD; I.ty = info(rt); I.flag = x->isAtomic(); I.imm = ord(x->getOrdering()); I.ops = { op(x->getPointerOperand()) }; }
			else if (auto* x = llvm::dyn_cast<llvm::StoreInst>(&i)) { I.op = I_STORE; I.ty = info(x->getValueOperand()->getType()); I.flag = x->isAtomic(); I.imm = ord(x->getOrdering()); I.ops = { op(x->getValueOperand()), op(x->getPointerOperand()) }; }
			else if (auto* x = llvm::dyn_cast<llvm::GetElementPtrInst>(&i)) {
				I.op = rt->isPointerTy() ? I_GEP : I_UNSUPPORTED; I.ops = { op(x->getPointerOperand()) };
				for (auto gti = llvm::gep_type_begin(x), e = llvm::gep_type_end(x); gti != e; ++gti) {
					auto* idx = gti.getOperand();
					if (auto* st = gti.getStructTypeOrNull()) I.imm += DL->getStructLayout(st)->getElementOffset((unsigned)llvm::cast<llvm::ConstantInt>(idx)->getZExtValue());
					else {
						uint64_t es = DL->getTypeAllocSize(gti.getIndexedType());
						if (auto* ci = llvm::dyn_cast<llvm::ConstantInt>(idx)) I.imm += ci->getSExtValue() * es;
						else I.gep.push_back({ op(idx), es, (uint16_t)widthOf(idx->getType()) });
					}
				}
			} else if (auto* x = llvm::dyn_cast<llvm::ExtractValueInst>(&i)) {
				I.op = I_EXTRACTVAL; I.ops = { op(x->getAggregateOperand()) };
				llvm::Type* t = x->getAggregateOperand()->getType(); unsigned at = 0;
				for (unsigned ix : x->indices()) {
					if (t->isStructTy()) { for (unsigned q = 0; q < ix; q++) at += nslots(t->getStructElementType(q)); t = t->getStructElementType(ix); }
					else { t = t->getArrayElementType(); at += ix * nslots(t); }
				}
				I.imm = at;
			} else if (auto* x = llvm::dyn_cast<llvm::InsertValueInst>(&i)) {
				I.op = I_INSERTVAL; I.ops = { op(x->getAggregateOperand()), op(x->getInsertedValueOperand()) };
				llvm::Type* t = rt; unsigned at = 0;
				for (unsigned ix : x->indices()) {
					if (t->isStructTy()) { for (unsigned q = 0; q < ix; q++) at += nslots(t->getStructElementType(q)); t = t->getStructElementType(ix); }
					else { t = t->getArrayElementType(); at += ix * nslots(t); }
				}
				I.imm = at; I.w = nslots(x->getInsertedValueOperand()->getType());
			} else if (auto* x = llvm::dyn_cast<llvm::ExtractElementInst>(&i)) {
				if (auto* ci = llvm::dyn_cast<llvm::ConstantInt>(x->getIndexOperand())) { I.op = I_EXTRACTVAL; I.ops = { op(x->getVectorOperand()) }; I.imm = ci->getZExtValue(); }
				else I.op = I_UNSUPPORTED;
			} else if (auto* x = llvm::dyn_cast<llvm::InsertElementInst>(&i)) {
				if (auto* ci = llvm::dyn_cast<llvm::ConstantInt>(x->getOperand(2))) { I.op = I_INSERTVAL; I.ops = { op(x->getOperand(0)), op(x->getOperand(1)) }; I.imm = ci->getZExtValue(); I.w = 1; }
				else I.op = I_UNSUPPORTED;
			} else if (auto* x = llvm::dyn_cast<llvm::ShuffleVectorInst>(&i)) {
				I.op = I_SHUF; I.ops = { op(x->getOperand(0)), op(x->getOperand(1)) }; I.imm = nslots(x->getOperand(0)->getType());
				for (int m : x->getShuffleMask()) I.swv.push_back(m < 0 ? 0 : (uint64_t)m);
			} else if (auto* x = llvm::dyn_cast<llvm::AtomicRMWInst>(&i)) {
				I.op = I_ATOMICRMW; I.imm = ord(x->getOrdering()); I.w = widthOf(rt); I.ty = info(rt); I.ops = { op(x->getPointerOperand()), op(x->getValOperand()) };
				switch (x->getOperation()) {
				case llvm::AtomicRMWInst::Xchg: I.sub = 0; break; case llvm::AtomicRMWInst::Add: I.sub = 1; break; case llvm::AtomicRMWInst::Sub: I.sub = 2; break;
				case llvm::AtomicRMWInst::And: I.sub = 3; break; case llvm::AtomicRMWInst::Or: I.sub = 4; break; case llvm::AtomicRMWInst::Xor: I.sub = 5; break;
				default: I.op = I_UNSUPPORTED;
				}
			} else if (auto* x = llvm::dyn_cast<llvm::AtomicCmpXchgInst>(&i)) {
				I.op = I_CMPXCHG; I.imm = ord(x->getSuccessOrdering()); I.ty = info(x->getCompareOperand()->getType()); I.w = widthOf(x->getCompareOperand()->getType());
				I.ops = { op(x->getPointerOperand()), op(x->getCompareOperand()), op(x->getNewValOperand()) };
			} else if (llvm::isa<llvm::FenceInst>(i)) I.op = I_FENCE;
			else if (llvm::isa<llvm::FreezeInst>(i)) { I.op = I_FREEZE; I.w = widthOf(rt); I.ops = { op(i.getOperand(0)) }; }
			else I.op = I_UNSUPPORTED;
			B.insts.push_back(std::move(I));
		}
	}
}
