#include "blast.h"
#include <minisat/core/Solver.h>
#include <unordered_map>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

typedef int L;                       // literal: 2*node + negation; node 0 = constant false
static const L F = 0, T = 1;
struct Node { L a, b; char type; };  // 'c' const, 'v' input, '&' and, '^' xor
static std::vector<Node> gN(1, Node{0, 0, 'c'});
static std::unordered_map<uint64_t, int> gAnd, gXor;
static std::unordered_map<E, std::vector<L>> gBits;

static L neg(L x) { return x ^ 1; }
static L newNode(char t, L a, L b) { gN.push_back(Node{a, b, t}); return 2 * (L)(gN.size() - 1); }
static L land(L a, L b) {
	if (a > b) std::swap(a, b);
	if (a == F) return F;
	if (a == T) return b;
	if (a == b) return a;
	if (a == neg(b)) return F;
	uint64_t k = (uint64_t)(uint32_t)a << 32 | (uint32_t)b;
	auto it = gAnd.find(k);
	if (it != gAnd.end()) return it->second;
	L r = newNode('&', a, b);
	gAnd[k] = r;
	return r;
}
static L lor(L a, L b) { return neg(land(neg(a), neg(b))); }
static L lxor(L a, L b) {
	int s = (a & 1) ^ (b & 1);
	a &= ~1; b &= ~1;
	if (a > b) std::swap(a, b);
	if (a == F) return b ^ s;
	if (a == b) return F ^ s;
	uint64_t k = (uint64_t)(uint32_t)a << 32 | (uint32_t)b;
	auto it = gXor.find(k);
	L r;
	if (it != gXor.end()) r = it->second;
	else { r = newNode('^', a, b); gXor[k] = r; }
	return r ^ s;
}
static L lmux(L c, L t, L f) {
	if (c == T) return t;
	if (c == F) return f;
	if (t == f) return t;
	if (t == neg(f)) return neg(lxor(c, t));
	return lor(land(c, t), land(neg(c), f));
}
static L lmaj(L a, L b, L c) { return lor(land(a, b), land(c, lor(a, b))); }

typedef std::vector<L> V;
static V vadd(const V &a, const V &b, L c) {
	V r(a.size());
	for (size_t i = 0; i < a.size(); ++i) { L x = lxor(a[i], b[i]); r[i] = lxor(x, c); c = lor(land(a[i], b[i]), land(x, c)); }
	return r;
}
static V vnot(const V &a) { V r(a); for (auto &x : r) x = neg(x); return r; }
static V vneg(const V &a) { V z(a.size(), F); return vadd(z, vnot(a), T); }
static V vmux(L c, const V &t, const V &f) { V r(t.size()); for (size_t i = 0; i < t.size(); ++i) r[i] = lmux(c, t[i], f[i]); return r; }
static L vult(const V &a, const V &b) { // a < b
	L lt = F;
	for (size_t i = 0; i < a.size(); ++i) lt = lmux(lxor(a[i], b[i]), b[i], lt);
	return lt;
}
static L veq(const V &a, const V &b) { L r = T; for (size_t i = 0; i < a.size(); ++i) r = land(r, neg(lxor(a[i], b[i]))); return r; }
static V vmul(const V &a, const V &b) {
	size_t w = a.size();
	int ca = 0, cb = 0;
	for (auto x : a) ca += x > 1; for (auto x : b) cb += x > 1;
	const V &m = cb <= ca ? b : a, &n = cb <= ca ? a : b;  // shift by bits of m
	V acc(w, F);
	for (size_t i = 0; i < w; ++i) {
		if (m[i] == F) continue;
		V p(w, F);
		for (size_t j = 0; i + j < w; ++j) p[i + j] = land(n[j], m[i]);
		acc = vadd(acc, p, F);
	}
	return acc;
}
static void vdiv(const V &a, const V &b, V &q, V &r) { // restoring division; b = 0 gives q = ~0, r = a
	size_t w = a.size();
	q.assign(w, F);
	V rem(w + 1, F), bb(b);
	bb.push_back(F);
	for (size_t i = w; i-- > 0;) {
		for (size_t j = w; j > 0; --j) rem[j] = rem[j - 1];
		rem[0] = a[i];
		L ge = neg(vult(rem, bb));
		V sub = vadd(rem, vnot(bb), T);
		rem = vmux(ge, sub, rem);
		q[i] = ge;
	}
	rem.pop_back();
	r = rem;
}
static V vshift(const V &a, const V &s, Kind k) {
	size_t w = a.size();
	L fill = k == K_ASHR ? a[w - 1] : F;
	V r(a);
	L big = F;
	for (size_t i = 0; i < s.size(); ++i) {
		size_t d = i < 31 ? (size_t)1 << i : (size_t)-1;
		if (i >= 31 || d >= w) { big = lor(big, s[i]); continue; }
		if (s[i] == F) continue;
		V t(w);
		for (size_t j = 0; j < w; ++j) {
			L v;
			if (k == K_SHL) v = j >= d ? r[j - d] : F;
			else v = j + d < w ? r[j + d] : fill;
			t[j] = lmux(s[i], v, r[j]);
		}
		r = t;
	}
	for (auto &x : r) x = lmux(big, fill, x);
	return r;
}

static const V &bits(E e) {
	auto it = gBits.find(e);
	if (it != gBits.end()) return it->second;
	V r;
	unsigned w = e->width;
	switch (e->kind) {
	case K_CONST: for (unsigned i = 0; i < w; ++i) r.push_back(i < 64 && (e->val >> i & 1) ? T : F); break;
	case K_VAR: for (unsigned i = 0; i < w; ++i) r.push_back(newNode('v', 0, 0)); break;
	case K_ADD: r = vadd(bits(e->a), bits(e->b), F); break;
	case K_SUB: r = vadd(bits(e->a), vnot(bits(e->b)), T); break;
	case K_MUL: r = vmul(bits(e->a), bits(e->b)); break;
	case K_UDIV: case K_UREM: { V q, m; V a = bits(e->a), b = bits(e->b); vdiv(a, b, q, m); r = e->kind == K_UDIV ? q : m; break; }
	case K_SDIV: case K_SREM: {
		V a = bits(e->a), b = bits(e->b), q, m;
		L sa = a.back(), sb = b.back();
		V aa = vmux(sa, vneg(a), a), ab = vmux(sb, vneg(b), b);
		vdiv(aa, ab, q, m);
		r = e->kind == K_SDIV ? vmux(lxor(sa, sb), vneg(q), q) : vmux(sa, vneg(m), m);
		break;
	}
	case K_AND: case K_OR: case K_XOR: {
		V a = bits(e->a), b = bits(e->b);
		for (unsigned i = 0; i < w; ++i) r.push_back(e->kind == K_AND ? land(a[i], b[i]) : e->kind == K_OR ? lor(a[i], b[i]) : lxor(a[i], b[i]));
		break;
	}
	case K_SHL: case K_LSHR: case K_ASHR: { V a = bits(e->a), b = bits(e->b); r = vshift(a, b, e->kind); break; }
	case K_EQ: { V a = bits(e->a), b = bits(e->b); r.push_back(veq(a, b)); break; }
	case K_ULT: { V a = bits(e->a), b = bits(e->b); r.push_back(vult(a, b)); break; }
	case K_ULE: { V a = bits(e->a), b = bits(e->b); r.push_back(neg(vult(b, a))); break; }
	case K_SLT: case K_SLE: {
		V a = bits(e->a), b = bits(e->b);
		a.back() = neg(a.back()); b.back() = neg(b.back());
		r.push_back(e->kind == K_SLT ? vult(a, b) : neg(vult(b, a)));
		break;
	}
	case K_ITE: { L c = bits(e->a)[0]; V t = bits(e->b), f = bits(e->c); r = vmux(c, t, f); break; }
	case K_CONCAT: { r = bits(e->b); V h = bits(e->a); r.insert(r.end(), h.begin(), h.end()); break; }
	case K_EXTRACT: { const V &a = bits(e->a); r.assign(a.begin() + e->val, a.begin() + e->val + w); break; }
	case K_ZEXT: r = bits(e->a); r.resize(w, F); break;
	case K_SEXT: { r = bits(e->a); L s = r.back(); r.resize(w, s); break; }
	default: abort();
	}
	if (r.size() != w) { fprintf(stderr, "blast: width\n"); abort(); }
	return gBits[e] = std::move(r);
}

extern std::vector<VarInfo> gVars;

int blastSolve(const std::vector<E> &conj, const std::vector<uint32_t> &vars, std::vector<std::pair<uint32_t, uint64_t>> &vals, long confBudget) {
	std::vector<L> roots;
	for (E e : conj) {
		L l = bits(e)[0];
		if (l == F) return 0;
		if (l != T) roots.push_back(l);
	}
	Minisat::Solver s;
	s.verbosity = 0;
	static std::vector<int> map, stamp;
	static int epoch = 0;
	++epoch;
	map.resize(gN.size());
	stamp.resize(gN.size(), 0);
	std::vector<int> stack, order;
	auto visit = [&](L l) { int n = l >> 1; if (stamp[n] != epoch) { stamp[n] = epoch; map[n] = s.newVar(); stack.push_back(n); } };
	auto lit = [&](L l) { return Minisat::mkLit(map[l >> 1], l & 1); };
	for (L l : roots) visit(l);
	while (!stack.empty()) {
		int n = stack.back();
		stack.pop_back();
		Node nd = gN[n];
		if (nd.type == '&' || nd.type == '^') {
			visit(nd.a); visit(nd.b);
			Minisat::Lit x = Minisat::mkLit(map[n]), a = lit(nd.a), b = lit(nd.b);
			if (nd.type == '&') { s.addClause(~x, a); s.addClause(~x, b); s.addClause(x, ~a, ~b); }
			else { s.addClause(~x, a, b); s.addClause(~x, ~a, ~b); s.addClause(x, ~a, b); s.addClause(x, a, ~b); }
		} else if (nd.type == 'c') s.addClause(~Minisat::mkLit(map[n]));
	}
	for (L l : roots) if (!s.addClause(lit(l))) return 0;
	if (confBudget > 0) s.setConfBudget(confBudget);
	Minisat::vec<Minisat::Lit> as;
	Minisat::lbool r = s.solveLimited(as);
	if (r == Minisat::lbool((uint8_t)1)) return 0;
	if (r != Minisat::lbool((uint8_t)0)) return -1;
	for (uint32_t v : vars) {
		uint64_t u = 0;
		auto it = gBits.find(gVars[v].expr);
		if (it != gBits.end())
			for (size_t i = 0; i < it->second.size() && i < 64; ++i) {
				int n = it->second[i] >> 1;
				if (stamp[n] == epoch && s.modelValue(map[n]) == Minisat::lbool((uint8_t)0)) u |= 1ull << i;
			}
		vals.push_back({v, u});
	}
	return 1;
}
