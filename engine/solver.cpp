#include "solver.h"
#include "blast.h"
#include <z3.h>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <string>

SolverStats gS;
void (*gQueryLog)(double, E, SatResult);
unsigned gSolverTimeoutMs = 60000;
long gConfBudget = 30000;
unsigned gCrossEvery = 200;

static Z3_context ctx() {
	static Z3_context c = nullptr;
	if (!c) {
		Z3_config cfg = Z3_mk_config();
		Z3_set_param_value(cfg, "model", "true");
		c = Z3_mk_context(cfg);
		Z3_del_config(cfg);
	}
	return c;
}

static Z3_ast tr(E e);
static Z3_ast boolOf(Z3_ast bv) { // bv1 -> Bool
	Z3_context c = ctx();
	return Z3_mk_eq(c, bv, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)));
}
// Translate width-1 expressions to Bool where natural
static Z3_ast trB(E e) {
	Z3_context c = ctx();
	switch (e->kind) {
	case K_CONST: return e->val ? Z3_mk_true(c) : Z3_mk_false(c);
	case K_EQ: if (e->a->width == 1) return Z3_mk_eq(c, trB(e->a), trB(e->b)); return Z3_mk_eq(c, tr(e->a), tr(e->b));
	case K_ULT: return Z3_mk_bvult(c, tr(e->a), tr(e->b));
	case K_ULE: return Z3_mk_bvule(c, tr(e->a), tr(e->b));
	case K_SLT: return Z3_mk_bvslt(c, tr(e->a), tr(e->b));
	case K_SLE: return Z3_mk_bvsle(c, tr(e->a), tr(e->b));
	default: break;
	}
	// z3 cache for booleans kept in a side table
	static std::unordered_map<E, Z3_ast> cache;
	auto it = cache.find(e);
	if (it != cache.end()) return it->second;
	Z3_ast r;
	switch (e->kind) {
	case K_AND: { Z3_ast a[2] = {trB(e->a), trB(e->b)}; r = Z3_mk_and(c, 2, a); break; }
	case K_OR: { Z3_ast a[2] = {trB(e->a), trB(e->b)}; r = Z3_mk_or(c, 2, a); break; }
	case K_XOR: if (isConst(e->b) && e->b->val == 1) r = Z3_mk_not(c, trB(e->a)); else r = Z3_mk_xor(c, trB(e->a), trB(e->b)); break;
	case K_ITE: r = Z3_mk_ite(c, trB(e->a), trB(e->b), trB(e->c)); break;
	default: r = boolOf(tr(e)); break;
	}
	Z3_inc_ref(c, r);
	cache[e] = r;
	return r;
}

static Z3_ast tr(E e) {
	if (e->z3) return (Z3_ast)e->z3;
	Z3_context c = ctx();
	Z3_ast r = nullptr;
	Z3_sort s = Z3_mk_bv_sort(c, e->width);
	if (e->width == 1 && e->kind != K_VAR && e->kind != K_EXTRACT && e->kind != K_CONST) {
		Z3_sort s1 = Z3_mk_bv_sort(c, 1);
		r = Z3_mk_ite(c, trB(e), Z3_mk_unsigned_int64(c, 1, s1), Z3_mk_unsigned_int64(c, 0, s1));
	} else switch (e->kind) {
	case K_CONST: r = Z3_mk_unsigned_int64(c, e->val, s); break;
	case K_VAR: { std::string n = "v" + std::to_string(e->val); r = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), s); break; }
	case K_ADD: r = Z3_mk_bvadd(c, tr(e->a), tr(e->b)); break;
	case K_SUB: r = Z3_mk_bvsub(c, tr(e->a), tr(e->b)); break;
	case K_MUL: r = Z3_mk_bvmul(c, tr(e->a), tr(e->b)); break;
	case K_UDIV: r = Z3_mk_bvudiv(c, tr(e->a), tr(e->b)); break;
	case K_SDIV: r = Z3_mk_bvsdiv(c, tr(e->a), tr(e->b)); break;
	case K_UREM: r = Z3_mk_bvurem(c, tr(e->a), tr(e->b)); break;
	case K_SREM: r = Z3_mk_bvsrem(c, tr(e->a), tr(e->b)); break;
	case K_AND: r = Z3_mk_bvand(c, tr(e->a), tr(e->b)); break;
	case K_OR: r = Z3_mk_bvor(c, tr(e->a), tr(e->b)); break;
	case K_XOR: r = Z3_mk_bvxor(c, tr(e->a), tr(e->b)); break;
	case K_SHL: r = Z3_mk_bvshl(c, tr(e->a), tr(e->b)); break;
	case K_LSHR: r = Z3_mk_bvlshr(c, tr(e->a), tr(e->b)); break;
	case K_ASHR: r = Z3_mk_bvashr(c, tr(e->a), tr(e->b)); break;
	case K_ITE: r = Z3_mk_ite(c, trB(e->a), tr(e->b), tr(e->c)); break;
	case K_CONCAT: r = Z3_mk_concat(c, tr(e->a), tr(e->b)); break;
	case K_EXTRACT: r = Z3_mk_extract(c, e->val + e->width - 1, e->val, tr(e->a)); break;
	case K_ZEXT: r = Z3_mk_zero_ext(c, e->width - e->a->width, tr(e->a)); break;
	case K_SEXT: r = Z3_mk_sign_ext(c, e->width - e->a->width, tr(e->a)); break;
	default: fprintf(stderr, "bad expr kind %d\n", e->kind); abort();
	}
	Z3_inc_ref(c, r);
	e->z3 = r;
	return r;
}

struct CacheEnt { SatResult r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static void z3Solve(const std::vector<E> &conj, const std::vector<uint32_t> &vs, CacheEnt &ent) {
	Z3_context c = ctx();
	Z3_solver s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
	Z3_solver_inc_ref(c, s);
	Z3_params p = Z3_mk_params(c);
	Z3_params_inc_ref(c, p);
	Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), gSolverTimeoutMs);
	Z3_solver_set_params(c, s, p);
	Z3_params_dec_ref(c, p);
	for (E e : conj) Z3_solver_assert(c, s, trB(e));
	Z3_lbool r = Z3_solver_check(c, s);
	if (r == Z3_L_TRUE) {
		ent.r = SAT;
		Z3_model m = Z3_solver_get_model(c, s);
		Z3_model_inc_ref(c, m);
		for (uint32_t v : vs) {
			Z3_ast val;
			uint64_t u = 0;
			if (Z3_model_eval(c, m, tr(gVars[v].expr), true, &val)) Z3_get_numeral_uint64(c, val, &u);
			ent.m.push_back({v, u});
		}
		Z3_model_dec_ref(c, m);
	} else if (r == Z3_L_FALSE) ent.r = UNSAT;
	else ent.r = UNKNOWN;
	Z3_solver_dec_ref(c, s);
}

struct KeyH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29; return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, KeyH> gCache;

static bool intersects(const VarSet &a, const std::vector<char> &mark) {
	for (auto x : a) if (x < mark.size() && mark[x]) return true;
	return false;
}

SatResult checkSat(const std::vector<E> &pc, E cond, const Model &base, Model &out) {
	if (isConst(cond)) {
		if (cond->val) { out = base; return SAT; }
		return UNSAT;
	}
	if (evalExpr(cond, base)) { gS.modelHits++; out = base; return SAT; }
	// slice
	std::vector<char> mark(gVars.size(), 0);
	for (auto v : *cond->vars) mark[v] = 1;
	std::vector<char> in(pc.size(), 0);
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < pc.size(); ++i) {
			if (!in[i] && intersects(*pc[i]->vars, mark)) {
				in[i] = 1; ch = true;
				for (auto v : *pc[i]->vars) mark[v] = 1;
			}
		}
	}
	std::vector<uint32_t> key;
	for (size_t i = 0; i < pc.size(); ++i) if (in[i]) key.push_back(pc[i]->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	key.push_back(cond->id);
	auto it = gCache.find(key);
	const CacheEnt *ce;
	if (it != gCache.end()) {
		gS.cacheHits++;
		ce = &it->second;
	} else {
		auto t0 = std::chrono::steady_clock::now();
		CacheEnt ent;
		ent.r = UNKNOWN;
		std::vector<E> conj;
		for (size_t i = 0; i < pc.size(); ++i) if (in[i]) conj.push_back(pc[i]);
		conj.push_back(cond);
		std::vector<uint32_t> vs;
		for (uint32_t v = 0; v < mark.size(); ++v) if (mark[v]) vs.push_back(v);
		int br = blastSolve(conj, vs, ent.m, gConfBudget);
		if (br == 1) { ent.r = SAT; gS.sat++; gS.sat_minisat++; }
		else if (br == 0) {
			ent.r = UNSAT; gS.unsat++; gS.unsat_minisat++;
			// cross-check a sample of the unsatisfiable answers with Z3
			if ((gS.unsat_minisat & (gS.unsat_minisat - 1)) == 0 || gS.unsat_minisat % gCrossEvery == 0) {
				CacheEnt e2;
				z3Solve(conj, vs, e2);
				gS.crosschecked++;
				if (e2.r == SAT) { fprintf(stderr, "solver disagreement\n"); abort(); }
			}
		} else {
			ent.m.clear();
			z3Solve(conj, vs, ent);
			gS.z3_queries++;
			if (ent.r == SAT) gS.sat++; else if (ent.r == UNSAT) gS.unsat++; else gS.unknown++;
		}
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		gS.queries++; gS.time += dt; if (dt > gS.maxTime) gS.maxTime = dt;
		if (gQueryLog) gQueryLog(dt, cond, ent.r);
		ce = &(gCache[key] = std::move(ent));
	}
	if (ce->r == SAT) {
		Model nm = base;
		if (nm.size() < gVars.size()) nm.resize(gVars.size(), 0);
		for (auto &kv : ce->m) nm[kv.first] = kv.second;
		// sanity: the merged model must satisfy the condition
		bool okm = evalExpr(cond, nm);
		for (size_t i = 0; okm && i < pc.size(); ++i) if (in[i] && !evalExpr(pc[i], nm)) okm = false;
		if (!okm) { fprintf(stderr, "solver/evaluator mismatch\n"); abort(); }
		out = std::move(nm);
	}
	return ce->r;
}
