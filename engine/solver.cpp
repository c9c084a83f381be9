#include <unistd.h>
#include "solver.h"
#include <z3.h>
#include <chrono>
#include <unordered_map>
#include <algorithm>
#include <cstdio>
#include <deque>

SolverStats g_ss;
unsigned g_solverTimeoutMs = 200000;
static Z3_context ctx;
static Z3_solver sol;
static bool z3err;
static void onErr(Z3_context c, Z3_error_code e) { z3err = true; fprintf(stderr, "sxe: z3: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
	if (ctx) return;
	Z3_config cfg = Z3_mk_config();
	Z3_set_param_value(cfg, "model", "true");
	ctx = Z3_mk_context(cfg);
	Z3_set_error_handler(ctx, onErr);
	sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
	Z3_solver_inc_ref(ctx, sol);
	Z3_params p = Z3_mk_params(ctx);
	Z3_params_inc_ref(ctx, p);
	Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_solverTimeoutMs);
	Z3_solver_set_params(ctx, sol, p);
	Z3_params_dec_ref(ctx, p);
}
static Z3_ast tr(E e);
static Z3_ast tab(E e, unsigned lo, unsigned n, Z3_ast idx, unsigned bit) {
	auto& t = tabOf(e);
	bool same = true;
	for (unsigned i = 1; i < n; i++) if (t[lo + i] != t[lo]) { same = false; break; }
	if (same) return tr(mkConst(t[lo], e->w));
	Z3_ast hi = tab(e, lo + n / 2, n / 2, idx, bit - 1), l = tab(e, lo, n / 2, idx, bit - 1);
	Z3_ast b = Z3_mk_eq(ctx, Z3_mk_extract(ctx, bit, bit, idx), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
	return Z3_mk_ite(ctx, b, hi, l);
}
// 1-bit expressions are translated as bit-vectors of width 1; trB gives the Boolean.
static Z3_ast trB(E e);
static Z3_ast b2v(Z3_ast b) { Z3_sort s = Z3_mk_bv_sort(ctx, 1); return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s)); }
static std::unordered_map<E, Z3_ast> boolMemo;
static Z3_ast trB(E e) {
	auto it = boolMemo.find(e);
	if (it != boolMemo.end()) return it->second;
	Z3_ast r;
	switch (e->op) {
	case O_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
	case O_EQ: if (e->a[0]->w == 1) r = Z3_mk_iff(ctx, trB(e->a[0]), trB(e->a[1])); else r = Z3_mk_eq(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_ULT: r = Z3_mk_bvult(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_ULE: r = Z3_mk_bvule(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_SLT: r = Z3_mk_bvslt(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_SLE: r = Z3_mk_bvsle(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_AND: { Z3_ast x[2] = { trB(e->a[0]), trB(e->a[1]) }; r = Z3_mk_and(ctx, 2, x); break; }
	case O_OR: { Z3_ast x[2] = { trB(e->a[0]), trB(e->a[1]) }; r = Z3_mk_or(ctx, 2, x); break; }
	case O_XOR: r = isC(e->a[1]) ? Z3_mk_not(ctx, trB(e->a[0])) : Z3_mk_xor(ctx, trB(e->a[0]), trB(e->a[1])); break;
	case O_ITE: r = Z3_mk_ite(ctx, trB(e->a[0]), trB(e->a[1]), trB(e->a[2])); break;
	default: r = Z3_mk_eq(ctx, tr(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
	}
	Z3_inc_ref(ctx, r);
	boolMemo[e] = r;
	return r;
}
static Z3_ast tr(E e) {
	if (e->z3) return (Z3_ast)e->z3;
	Z3_ast r;
	switch (e->op) {
	case O_CONST: {
		Z3_sort s = Z3_mk_bv_sort(ctx, e->w);
		if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (uint64_t)e->c, s);
		else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)(e->c >> 64), Z3_mk_bv_sort(ctx, e->w - 64)), Z3_mk_unsigned_int64(ctx, (uint64_t)e->c, Z3_mk_bv_sort(ctx, 64)));
		break;
	}
	case O_SYM: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->c), Z3_mk_bv_sort(ctx, e->w)); break;
	case O_ADD: r = Z3_mk_bvadd(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_SUB: r = Z3_mk_bvsub(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_MUL: r = Z3_mk_bvmul(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_UDIV: r = Z3_mk_bvudiv(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_SDIV: r = Z3_mk_bvsdiv(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_UREM: r = Z3_mk_bvurem(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_SREM: r = Z3_mk_bvsrem(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_SHL: r = Z3_mk_bvshl(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_LSHR: r = Z3_mk_bvlshr(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_ASHR: r = Z3_mk_bvashr(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_AND: if (e->w == 1) r = b2v(trB(e)); else r = Z3_mk_bvand(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_OR: if (e->w == 1) r = b2v(trB(e)); else r = Z3_mk_bvor(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_XOR: if (e->w == 1) r = b2v(trB(e)); else r = Z3_mk_bvxor(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_ITE: if (e->w == 1) r = b2v(trB(e)); else r = Z3_mk_ite(ctx, trB(e->a[0]), tr(e->a[1]), tr(e->a[2])); break;
	case O_CONCAT: r = Z3_mk_concat(ctx, tr(e->a[0]), tr(e->a[1])); break;
	case O_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, tr(e->a[0])); break;
	case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a[0]->w, tr(e->a[0])); break;
	case O_TAB: r = tab(e, 0, (unsigned)tabOf(e).size(), tr(e->a[0]), e->a[0]->w - 1); break;
	default: r = b2v(trB(e));
	}
	Z3_inc_ref(ctx, r);
	e->z3 = r;
	return r;
}

struct CacheEnt { bool sat; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<std::string, CacheEnt> qcache;
static std::deque<std::vector<std::pair<uint32_t, uint64_t>>> recent;

static bool solve(const std::vector<E>& cs, const Support& syms, CacheEnt& out) {
	std::string key;
	{
		std::vector<uint32_t> ids; for (E c : cs) ids.push_back(c->id);
		std::sort(ids.begin(), ids.end());
		key.assign((const char*)ids.data(), ids.size() * 4);
	}
	auto it = qcache.find(key);
	if (it != qcache.end()) { g_ss.cacheHits++; out = it->second; return out.sat; }
	init();
	auto t0 = std::chrono::steady_clock::now();
	z3err = false;
	Z3_solver_push(ctx, sol);
	for (E c : cs) Z3_solver_assert(ctx, sol, trB(c));
	if (const char* qf = getenv("SXE_QUERIES")) { FILE* f = fopen(qf, "a"); if (f) { fprintf(f, "query %d\n", (int)getpid()); for (E c : cs) fprintf(f, "  %s\n", exprStr(c, 30).c_str()); fclose(f); } }
	Z3_lbool r = Z3_solver_check(ctx, sol);
	if (r == Z3_L_TRUE) {
		Z3_model m = Z3_solver_get_model(ctx, sol);
		Z3_model_inc_ref(ctx, m);
		out.sat = true; out.m.clear();
		for (uint32_t s : syms) {
			Z3_ast v = nullptr;
			if (Z3_model_eval(ctx, m, tr(g_syms[s].e), true, &v) && v) {
				uint64_t x = 0;
				Z3_inc_ref(ctx, v);
				Z3_get_numeral_uint64(ctx, v, &x);
				Z3_dec_ref(ctx, v);
				out.m.push_back({ s, x });
			}
		}
		Z3_model_dec_ref(ctx, m);
	} else out.sat = false;
	Z3_solver_pop(ctx, sol, 1);
	double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	if (const char* qf = getenv("SXE_QUERIES")) { FILE* f = fopen(qf, "a"); if (f) { fprintf(f, "after %d %d %.2f\n", (int)getpid(), (int)r, dt); if (dt > 1) for (E c : cs) fprintf(f, "    %s\n", exprStr(c, 30).c_str()); fclose(f); } }
	g_ss.queries++; g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
	if (r == Z3_L_UNDEF || z3err) throw Incomplete{ "solver gave no answer within its time limit" };
	if (out.sat) g_ss.sat++; else g_ss.unsat++;
	qcache[key] = out;
	return out.sat;
}

static void slice(State& s, E c, std::vector<E>& cs, Support& syms) {
	std::set<uint32_t> in(c->sup->begin(), c->sup->end());
	std::vector<bool> used(s.pc.size(), false);
	cs.push_back(c);
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < s.pc.size(); i++) {
			if (used[i]) continue;
			bool hit = false;
			for (uint32_t x : *s.pc[i]->sup) if (in.count(x)) { hit = true; break; }
			if (!hit) continue;
			used[i] = true; cs.push_back(s.pc[i]);
			for (uint32_t x : *s.pc[i]->sup) if (in.insert(x).second) ch = true;
		}
	}
	syms.assign(in.begin(), in.end());
	if (cs.size() > g_ss.maxSlice) g_ss.maxSlice = cs.size();
}

bool feasible(State& s, E c, std::shared_ptr<Model>* m) {
	if (isC(c)) { if (c->c && m) *m = s.model; return c->c != 0; }
	if (const Set256* t = truthSet(c)) {
		uint32_t v = c->sup->front();
		Set256 d = *t;
		if (v < s.domSet.size() && s.domSet[v]) d &= s.dom[v];
		if (d.none()) { g_ss.domainHits++; return false; }
		if (!(v < s.multi.size() && s.multi[v])) {
			g_ss.domainHits++;
			if (m) {
				auto n = std::make_shared<Model>(*s.model);
				uint64_t cv = s.model->get(v);
				if (!(cv < 256 && d.test((size_t)cv))) n->set(v, d._Find_first());
				*m = n;
			}
			return true;
		}
	}
	// already decided?
	E nc = mkNot(c);
	for (E p : s.pc) { if (p == nc) return false; }
	std::vector<E> cs; Support syms;
	slice(s, c, cs, syms);
	CacheEnt ce;
	if (!solve(cs, syms, ce)) return false;
	if (m) {
		auto n = std::make_shared<Model>(*s.model);
		for (auto& x : ce.m) n->set(x.first, x.second);
		*m = n;
	}
	return true;
}

void addConstraint(State& s, E c) {
	if (isC(c)) return;
	if (c->op == O_AND) { addConstraint(s, c->a[0]); addConstraint(s, c->a[1]); return; }
	for (E p : s.pc) if (p == c) return;
	if (const Set256* t = truthSet(c)) {
		uint32_t v = c->sup->front();
		if (v >= s.domSet.size()) { s.domSet.resize(v + 1, false); s.dom.resize(v + 1); }
		if (s.domSet[v]) {
			Set256 n = s.dom[v] & *t;
			if (n == s.dom[v]) return; // implied
			s.dom[v] = n;
		} else { s.dom[v] = *t; if (g_syms[v].w < 8) { Set256 all; for (unsigned i = 0; i < (1u << g_syms[v].w); i++) all.set(i); s.dom[v] &= all; } s.domSet[v] = true; }
	} else if (c->sup->size() > 1) {
		for (uint32_t v : *c->sup) { if (v >= s.multi.size()) s.multi.resize(v + 1, 0); s.multi[v] = 1; }
	} else { uint32_t v = c->sup->front(); if (v >= s.multi.size()) s.multi.resize(v + 1, 0); s.multi[v] = 1; }
	s.pc.push_back(c);
}

// Replace every uninitialised symbol by a fresh twin.
static E twin(E e, std::unordered_map<E, E>& memo) {
	if (!e->uninit) return e;
	auto it = memo.find(e);
	if (it != memo.end()) return it->second;
	E r;
	if (e->op == O_SYM) {
		static std::unordered_map<E, E> tw;
		auto& t = tw[e];
		if (!t) t = mkSym(e->w, g_syms[(size_t)e->c].name + "'", true);
		r = t;
	} else {
		E a[3] = {};
		for (int i = 0; i < 3; i++) if (e->a[i]) a[i] = twin(e->a[i], memo);
		switch (e->op) {
		case O_ITE: r = mkITE(a[0], a[1], a[2]); break;
		case O_CONCAT: r = mkConcat(a[0], a[1]); break;
		case O_EXTRACT: r = mkExtract(a[0], (unsigned)e->c, e->w); break;
		case O_SEXT: r = mkSExt(a[0], e->w); break;
		case O_TAB: r = mkTab(tabOf(e), a[0], e->w); break;
		default: r = mkBin(e->op, a[0], a[1]);
		}
	}
	memo[e] = r;
	return r;
}
bool uninitMatters(State& s, E c) {
	if (!c->uninit) return false;
	std::unordered_map<E, E> memo;
	E d = twin(c, memo);
	E q = mkNe(c, d);
	if (isC(q)) return q->c != 0;
	std::vector<E> cs; Support syms;
	slice(s, q, cs, syms);
	size_t n = cs.size();
	for (size_t i = 1; i < n; i++) if (cs[i]->uninit) { E t = twin(cs[i], memo); if (t != cs[i]) cs.push_back(t); }
	std::set<uint32_t> in; for (E x : cs) in.insert(x->sup->begin(), x->sup->end());
	syms.assign(in.begin(), in.end());
	CacheEnt ce;
	return solve(cs, syms, ce);
}
