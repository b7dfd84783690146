#include "expr.h"
#include <cstring>
#include <algorithm>
#include <cstdlib>
#include <cstdio>
#include <map>

std::vector<VarInfo> gVars;
static uint32_t gNextId = 1;
static uint32_t gEpoch = 1;

struct EH { size_t operator()(E e) const {
	uint64_t h = e->kind * 0x9E3779B97F4A7C15ull ^ e->width * 0xC2B2AE3D27D4EB4Full ^ e->val * 0x165667B19E3779F9ull;
	h ^= (uint64_t)(uintptr_t)e->a * 0x27D4EB2F165667C5ull; h = (h << 13) | (h >> 51);
	h ^= (uint64_t)(uintptr_t)e->b * 0x85EBCA77C2B2AE63ull; h = (h << 17) | (h >> 47);
	h ^= (uint64_t)(uintptr_t)e->c * 0x9E3779B185EBCA87ull; h ^= h >> 31;
	return h; } };
struct EEq { bool operator()(E x, E y) const {
	return x->kind == y->kind && x->width == y->width && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c; } };
static std::unordered_set<E, EH, EEq> gTab;

struct VSH { size_t operator()(const VarSet *v) const { size_t h = v->size(); for (auto x : *v) h = h * 1000003 + x; return h; } };
struct VSE { bool operator()(const VarSet *a, const VarSet *b) const { return *a == *b; } };
static std::unordered_set<const VarSet *, VSH, VSE> gVS;
static const VarSet *internVS(VarSet &&v) {
	auto it = gVS.find(&v);
	if (it != gVS.end()) return *it;
	auto *n = new VarSet(std::move(v));
	gVS.insert(n);
	return n;
}
static const VarSet *emptyVS() { static const VarSet *e = internVS(VarSet()); return e; }
static const VarSet *unionVS(const VarSet *a, const VarSet *b) {
	if (a == b || b->empty()) return a;
	if (a->empty()) return b;
	VarSet v; v.reserve(a->size() + b->size());
	std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(v));
	if (v == *a) return a;
	if (v == *b) return b;
	return internVS(std::move(v));
}

size_t exprCount() { return gTab.size(); }

static unsigned effWidth(Kind k, unsigned w, uint64_t val, E a, E b, E c) {
	unsigned r = w;
	switch (k) {
	case K_CONST: r = val ? 64 - __builtin_clzll(val) : 0; break;
	case K_ZEXT: r = a->ew; break;
	case K_AND: r = std::min(a->ew, b->ew); break;
	case K_OR: case K_XOR: r = std::max(a->ew, b->ew); break;
	case K_ADD: r = std::max(a->ew, b->ew) + 1; break;
	case K_MUL: r = a->ew + b->ew; break;
	case K_UDIV: r = (isConst(b) && b->val) ? a->ew : w; break;
	case K_UREM: r = a->ew; if (isConst(b) && b->val) r = std::min<unsigned>(r, b->ew); break;
	case K_LSHR: r = a->ew; break;
	case K_EXTRACT: r = a->ew > val ? a->ew - val : 0; break;
	case K_CONCAT: r = a->ew ? a->ew + b->width : b->ew; break;
	case K_ITE: r = std::max(b->ew, c->ew); break;
	default: break;
	}
	return std::min(r, w);
}

static E intern(Kind k, unsigned w, uint64_t val, E a, E b, E c) {
	Expr tmp; tmp.kind = k; tmp.width = w; tmp.val = val; tmp.a = a; tmp.b = b; tmp.c = c;
	auto it = gTab.find(&tmp);
	if (it != gTab.end()) return *it;
	Expr *n = new Expr(tmp);
	n->id = gNextId++; n->epoch = 0; n->z3 = nullptr;
	n->ew = effWidth(k, w, val, a, b, c);
	const VarSet *vs = emptyVS();
	if (a) vs = unionVS(vs, a->vars);
	if (b) vs = unionVS(vs, b->vars);
	if (c) vs = unionVS(vs, c->vars);
	n->vars = vs;
	gTab.insert(n);
	return n;
}

E mkConst(uint64_t v, unsigned w) { return intern(K_CONST, w, v & maskw(w), 0, 0, 0); }
E mkVar(const std::string &name, unsigned w) {
	uint32_t id = gVars.size();
	Expr *n = new Expr();
	n->kind = K_VAR; n->width = w; n->val = id; n->a = n->b = n->c = nullptr;
	n->id = gNextId++; n->epoch = 0; n->z3 = nullptr;
	n->ew = w;
	n->vars = internVS(VarSet{id});
	gTab.insert(n);
	gVars.push_back({name, w, n});
	return n;
}

static bool foldBin(Kind k, uint64_t x, uint64_t y, unsigned w, uint64_t &r) {
	uint64_t m = maskw(w);
	switch (k) {
	case K_ADD: r = (x + y) & m; return true;
	case K_SUB: r = (x - y) & m; return true;
	case K_MUL: r = (x * y) & m; return true;
	case K_UDIV: r = y ? x / y : m; return true;
	case K_UREM: r = y ? x % y : x; return true;
	case K_SDIV: { int64_t a = sx(x, w), b = sx(y, w); if (b == 0) r = a < 0 ? 1 : m; else if (b == -1) r = (0 - x) & m; else r = (uint64_t)(a / b) & m; return true; }
	case K_SREM: { int64_t a = sx(x, w), b = sx(y, w); if (b == 0) r = x; else if (b == -1) r = 0; else r = (uint64_t)(a % b) & m; return true; }
	case K_AND: r = x & y; return true;
	case K_OR: r = x | y; return true;
	case K_XOR: r = x ^ y; return true;
	case K_SHL: r = y >= w ? 0 : (x << y) & m; return true;
	case K_LSHR: r = y >= w ? 0 : x >> y; return true;
	case K_ASHR: { int64_t a = sx(x, w); r = (y >= w ? (uint64_t)(a < 0 ? -1 : 0) : (uint64_t)(a >> y)) & m; return true; }
	case K_EQ: r = x == y; return true;
	case K_ULT: r = x < y; return true;
	case K_ULE: r = x <= y; return true;
	case K_SLT: r = sx(x, w) < sx(y, w); return true;
	case K_SLE: r = sx(x, w) <= sx(y, w); return true;
	default: return false;
	}
}

static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }

E mkNot(E a) {
	if (isConst(a)) return mkConst(!a->val, 1);
	if (a->kind == K_XOR && isConst(a->b) && a->b->val == 1) return a->a;
	// push through comparisons
	if (a->kind == K_ULT) return mkBin(K_ULE, a->b, a->a);
	if (a->kind == K_ULE) return mkBin(K_ULT, a->b, a->a);
	if (a->kind == K_SLT) return mkBin(K_SLE, a->b, a->a);
	if (a->kind == K_SLE) return mkBin(K_SLT, a->b, a->a);
	return intern(K_XOR, 1, 0, a, mkConst(1, 1), 0);
}
E mkAndB(E a, E b) { return mkBin(K_AND, a, b); }
E mkOrB(E a, E b) { return mkBin(K_OR, a, b); }

static bool isNotOf(E a, E b) {
	return (a->kind == K_XOR && a->width == 1 && isConst(a->b) && a->b->val == 1 && a->a == b);
}

E mkBin(Kind k, E a, E b) {
	unsigned w = a->width;
	if (a->width != b->width) { fprintf(stderr, "width mismatch kind %d: %u %u\n", k, a->width, b->width); abort(); }
	unsigned rw = isCmp(k) ? 1 : w;
	if (isConst(a) && isConst(b) && w <= 64) {
		uint64_t r;
		if (foldBin(k, a->val, b->val, w, r)) return mkConst(r, rw);
	}
	// canonical: const on the right for commutative operators
	if ((k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ)) {
		if (isConst(a) || (!isConst(b) && a->id > b->id)) std::swap(a, b);
	}
	bool bc = isConst(b) && w <= 64;
	uint64_t bv = bc ? b->val : 0;
	uint64_t m = maskw(w);
	switch (k) {
	case K_ADD:
		if (bc && bv == 0) return a;
		if (bc && a->kind == K_ADD && isConst(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->val + bv, w));
		if (w == 1) return mkBin(K_XOR, a, b);
		break;
	case K_SUB:
		if (bc) return mkBin(K_ADD, a, mkConst(0 - bv, w));
		if (a == b) return mkConst(0, w);
		// (x + c) - x
		if (a->kind == K_ADD && a->a == b) return a->b;
		if (a->kind == K_ADD && b->kind == K_ADD && a->a == b->a && isConst(a->b) && isConst(b->b)) return mkConst(a->b->val - b->b->val, w);
		if (w == 1) return mkBin(K_XOR, a, b);
		break;
	case K_MUL:
		if (bc && bv == 0) return b;
		if (bc && bv == 1) return a;
		if (bc && w <= 64 && (bv & (bv - 1)) == 0) return mkBin(K_SHL, a, mkConst(__builtin_ctzll(bv), w));
		if (w == 1) return mkBin(K_AND, a, b);
		break;
	case K_UDIV:
		if (bc && bv == 1) return a;
		if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(bv), w));
		break;
	case K_UREM:
		if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(K_AND, a, mkConst(bv - 1, w));
		break;
	case K_AND:
		if (bc && bv == 0) return b;
		if (bc && bv == m) return a;
		if (a == b) return a;
		if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkConst(0, 1);
		if (bc && a->kind == K_AND && isConst(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->val & bv, w));
		if (bc && a->kind == K_ZEXT) {
			uint64_t im = maskw(a->a->width);
			if ((bv & im) == im) return a;
			return mkZExt(mkBin(K_AND, a->a, mkConst(bv & im, a->a->width)), w);
		}
		// low mask: and(x, 2^n-1) = zext(extract(x,0,n))
		if (bc && w > 1 && bv != 0 && (bv & (bv + 1)) == 0) {
			unsigned n = __builtin_popcountll(bv);
			return mkZExt(mkExtract(a, 0, n), w);
		}
		if (w == 1 && a->kind == K_ITE) break;
		break;
	case K_OR:
		if (bc && bv == 0) return a;
		if (bc && bv == m) return b;
		if (a == b) return a;
		if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkConst(1, 1);
		// or(zext(x), shl(zext(y), n)) patterns -> concat when disjoint
		{
			E lo = a, hi = b;
			for (int t = 0; t < 2; ++t, std::swap(lo, hi)) {
				if (lo->kind == K_ZEXT && hi->kind == K_CONCAT && isConst(hi->b) && hi->b->val == 0 && hi->b->width == lo->a->width)
					return mkConcat(hi->a, lo->a);
				if (lo->kind == K_ZEXT && hi->kind == K_CONCAT && isConst(hi->b) && hi->b->val == 0 && hi->b->width > lo->a->width)
					return mkConcat(hi->a, mkZExt(lo->a, hi->b->width));
			}
		}
		break;
	case K_XOR:
		if (bc && bv == 0) return a;
		if (a == b) return mkConst(0, w);
		if (bc && a->kind == K_XOR && isConst(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->val ^ bv, w));
		if (w == 1 && bc && bv == 1) return mkNot(a);
		break;
	case K_SHL:
		if (bc && bv == 0) return a;
		if (bc && bv >= w) return mkConst(0, w);
		if (bc) return mkConcat(mkExtract(a, 0, w - bv), mkConst(0, bv));
		break;
	case K_LSHR:
		if (bc && bv == 0) return a;
		if (bc && bv >= w) return mkConst(0, w);
		if (bc) return mkZExt(mkExtract(a, bv, w - bv), w);
		break;
	case K_ASHR:
		if (bc && bv == 0) return a;
		if (bc) { if (bv >= w) bv = w - 1; return mkSExt(mkExtract(a, bv, w - bv), w); }
		break;
	case K_EQ:
		if (a == b) return mkConst(1, 1);
		if (w == 1 && bc) return bv ? a : mkNot(a);
		if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkConst(0, 1);
		if (bc) {
			if (a->kind == K_ZEXT) {
				if (bv & ~maskw(a->a->width)) return mkConst(0, 1);
				return mkEq(a->a, mkConst(bv, a->a->width));
			}
			if (a->kind == K_SEXT) {
				uint64_t t = bv & maskw(a->a->width);
				if (((uint64_t)sx(t, a->a->width) & m) != bv) return mkConst(0, 1);
				return mkEq(a->a, mkConst(t, a->a->width));
			}
			if (a->kind == K_ADD && isConst(a->b)) return mkEq(a->a, mkConst(bv - a->b->val, w));
			if (a->kind == K_XOR && isConst(a->b)) return mkEq(a->a, mkConst(bv ^ a->b->val, w));
			if (a->kind == K_CONCAT) {
				unsigned lw = a->b->width;
				E l = mkEq(a->b, mkConst(bv, lw));
				if (isFalse(l)) return l;
				E h = mkEq(a->a, mkConst(lw >= 64 ? 0 : bv >> lw, a->a->width));
				return mkBin(K_AND, l, h);
			}
			if (a->kind == K_ITE) {
				bool tc = isConst(a->b), fc = isConst(a->c);
				if (tc || fc) {
					E et = mkEq(a->b, b), ef = mkEq(a->c, b);
					return mkIte(a->a, et, ef);
				}
			}
		}
		if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
		if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
		if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->b->width == b->b->width)
			return mkBin(K_AND, mkEq(a->a, b->a), mkEq(a->b, b->b));
		break;
	case K_ULT:
		if (a == b) return mkConst(0, 1);
		if (bc && bv == 0) return mkConst(0, 1);
		if (bc && bv == 1) return mkEq(a, mkConst(0, w));
		if (isConst(a) && w <= 64 && a->val == m) return mkConst(0, 1);
		if (w == 1) return mkBin(K_AND, mkNot(a), b);
		if (bc && a->kind == K_ZEXT) {
			if (bv > maskw(a->a->width)) return mkConst(1, 1);
			return mkBin(K_ULT, a->a, mkConst(bv, a->a->width));
		}
		if (isConst(a) && w <= 64 && b->kind == K_ZEXT) {
			if (a->val >= maskw(b->a->width)) return mkConst(0, 1);
			return mkBin(K_ULT, mkConst(a->val, b->a->width), b->a);
		}
		if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mkBin(K_ULT, a->a, b->a);
		break;
	case K_ULE:
		if (a == b) return mkConst(1, 1);
		if (isConst(a) && a->val == 0 && w <= 64) return mkConst(1, 1);
		if (bc && bv == m) return mkConst(1, 1);
		if (bc && bv == 0) return mkEq(a, b);
		if (w == 1) return mkBin(K_OR, mkNot(a), b);
		if (bc && a->kind == K_ZEXT) {
			if (bv >= maskw(a->a->width)) return mkConst(1, 1);
			return mkBin(K_ULE, a->a, mkConst(bv, a->a->width));
		}
		if (isConst(a) && w <= 64 && b->kind == K_ZEXT) {
			if (a->val > maskw(b->a->width)) return mkConst(0, 1);
			return mkBin(K_ULE, mkConst(a->val, b->a->width), b->a);
		}
		if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return mkBin(K_ULE, a->a, b->a);
		break;
	case K_SLT: case K_SLE:
		if (a == b) return mkConst(k == K_SLE, 1);
		if (w > 1) {
			// zext values are non-negative
			Kind uk = k == K_SLT ? K_ULT : K_ULE;
			bool an = a->kind == K_ZEXT || (isConst(a) && w <= 64 && !(a->val >> (w - 1)));
			bool bn = b->kind == K_ZEXT || (bc && !(bv >> (w - 1)));
			if (an && bn) return mkBin(uk, a, b);
			bool aneg = isConst(a) && w <= 64 && (a->val >> (w - 1));
			bool bneg = bc && (bv >> (w - 1));
			if (an && bneg) return mkConst(0, 1);
			if (aneg && bn) return mkConst(1, 1);
			if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->width == b->a->width) return mkBin(k, a->a, b->a);
			if (a->kind == K_SEXT && bc) {
				unsigned iw = a->a->width; int64_t v = sx(bv, w);
				int64_t mx = (int64_t)(maskw(iw) >> 1), mn = -mx - 1;
				if (k == K_SLT) { if (v > mx) return mkConst(1, 1); if (v <= mn) return mkConst(0, 1); }
				else { if (v >= mx) return mkConst(1, 1); if (v < mn) return mkConst(0, 1); }
				return mkBin(k, a->a, mkConst((uint64_t)v, iw));
			}
			if (b->kind == K_SEXT && isConst(a) && w <= 64) {
				unsigned iw = b->a->width; int64_t v = sx(a->val, w);
				int64_t mx = (int64_t)(maskw(iw) >> 1), mn = -mx - 1;
				if (k == K_SLT) { if (v < mn) return mkConst(1, 1); if (v >= mx) return mkConst(0, 1); }
				else { if (v <= mn) return mkConst(1, 1); if (v > mx) return mkConst(0, 1); }
				return mkBin(k, mkConst((uint64_t)v, iw), b->a);
			}
		}
		break;
	default: break;
	}
	// narrow operations whose operands have known-zero high bits
	if (w > 1) {
		unsigned ea = a->ew, eb = b->ew, n = w;
		switch (k) {
		case K_ADD: n = std::max(ea, eb) + 1; break;
		case K_MUL: n = ea + eb; break;
		case K_AND: n = std::min(ea, eb); break;
		case K_OR: case K_XOR: n = std::max(ea, eb); break;
		case K_UDIV: case K_UREM: if (bc && bv) n = std::max(ea, eb); break;
		case K_LSHR: n = std::max(ea, eb); break;
		case K_SHL: if (eb < 8 && ea + (1u << eb) - 1 < w) n = std::max<unsigned>(ea + (1u << eb) - 1, eb); break;
		case K_EQ: case K_ULT: case K_ULE: n = std::max(ea, eb); break;
		case K_SLT: case K_SLE: if (ea < w && eb < w) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b); break;
		default: break;
		}
		if (n == 0) n = 1;
		if (n < w) {
			E r = mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n));
			return isCmp(k) ? r : mkZExt(r, w);
		}
	}
	// distribute comparisons with constants over ITE of constants
	if (isCmp(k) && k != K_EQ) {
		if (isConst(b) && a->kind == K_ITE && (isConst(a->b) || isConst(a->c)))
			return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
		if (isConst(a) && b->kind == K_ITE && (isConst(b->b) || isConst(b->c)))
			return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
	}
	if (!isCmp(k) && isConst(b) && a->kind == K_ITE && isConst(a->b) && isConst(a->c) && k != K_UDIV && k != K_SDIV && k != K_UREM && k != K_SREM)
		return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
	return intern(k, rw, 0, a, b, 0);
}

E mkIte(E c, E t, E f) {
	if (isConst(c)) return c->val ? t : f;
	if (t == f) return t;
	if (t->width == 1) {
		if (isConst(t) && isConst(f)) return t->val ? c : mkNot(c);
		if (isConst(t)) return t->val ? mkBin(K_OR, c, f) : mkBin(K_AND, mkNot(c), f);
		if (isConst(f)) return f->val ? mkBin(K_OR, mkNot(c), t) : mkBin(K_AND, c, t);
	}
	if (c->kind == K_XOR && c->width == 1 && isConst(c->b) && c->b->val == 1) return mkIte(c->a, f, t);
	if (t->kind == K_ITE && t->a == c) t = t->b;
	if (f->kind == K_ITE && f->a == c) f = f->c;
	if (t == f) return t;
	if (t->width > 1) {
		unsigned n = std::max(t->ew, f->ew);
		if (n == 0) n = 1;
		if (n < t->width && !(isConst(t) && isConst(f))) return mkZExt(mkIte(c, mkExtract(t, 0, n), mkExtract(f, 0, n)), t->width);
	}
	return intern(K_ITE, t->width, 0, c, t, f);
}

E mkConcat(E hi, E lo) {
	unsigned w = hi->width + lo->width;
	if (isConst(hi) && isConst(lo) && w <= 64) return mkConst((hi->val << lo->width) | lo->val, w);
	if (isConst(hi) && hi->val == 0) return mkZExt(lo, w);
	if (hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->width)
		return mkExtract(hi->a, lo->val, w);
	// hi is zext(extract) directly above lo
	if (hi->kind == K_ZEXT && hi->a->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->a->a == lo->a && hi->a->val == lo->val + lo->width)
		return mkZExt(mkExtract(lo->a, lo->val, hi->a->width + lo->width), w);
	if (hi->kind == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
	if (lo->kind == K_CONCAT && hi->kind == K_EXTRACT && lo->a->kind == K_EXTRACT && hi->a == lo->a->a && hi->val == lo->a->val + lo->a->width)
		return mkConcat(mkExtract(hi->a, lo->a->val, hi->width + lo->a->width), lo->b);
	return intern(K_CONCAT, w, 0, hi, lo, 0);
}

E mkExtract(E a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->width) return a;
	if (isConst(a)) { return mkConst(lo >= 64 ? 0 : a->val >> lo, w); }
	if (lo >= a->ew) return mkConst(0, w);
	switch (a->kind) {
	case K_EXTRACT: return mkExtract(a->a, a->val + lo, w);
	case K_CONCAT: {
		unsigned lw = a->b->width;
		if (lo >= lw) return mkExtract(a->a, lo - lw, w);
		if (lo + w <= lw) return mkExtract(a->b, lo, w);
		return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
	}
	case K_ZEXT: {
		unsigned iw = a->a->width;
		if (lo >= iw) return mkConst(0, w);
		if (lo + w <= iw) return mkExtract(a->a, lo, w);
		return mkZExt(mkExtract(a->a, lo, iw - lo), w);
	}
	case K_SEXT: {
		unsigned iw = a->a->width;
		if (lo + w <= iw) return mkExtract(a->a, lo, w);
		if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
		return mkSExt(mkExtract(a->a, iw - 1, 1), w);
	}
	case K_ITE:
		if ((isConst(a->b) || a->b->kind == K_ITE || a->b->kind == K_ZEXT || a->b->kind == K_CONCAT) && (isConst(a->c) || a->c->kind == K_ITE || a->c->kind == K_ZEXT || a->c->kind == K_CONCAT))
			return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
		break;
	case K_AND: case K_OR: case K_XOR:
		return mkBin(a->kind, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
	case K_ADD: case K_SUB: case K_MUL:
		if (lo == 0) return mkBin(a->kind, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
		break;
	default: break;
	}
	return intern(K_EXTRACT, w, lo, a, 0, 0);
}

E mkZExt(E a, unsigned w) {
	if (w == a->width) return a;
	if (isConst(a)) return mkConst(a->val, w);
	if (a->kind == K_ZEXT) return mkZExt(a->a, w);
	if (a->kind == K_ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
	return intern(K_ZEXT, w, 0, a, 0, 0);
}

E mkSExt(E a, unsigned w) {
	if (w == a->width) return a;
	if (isConst(a) && w <= 64) return mkConst((uint64_t)sx(a->val, a->width), w);
	if (a->kind == K_SEXT) return mkSExt(a->a, w);
	if (a->kind == K_ZEXT) return mkZExt(a->a, w);
	if (a->kind == K_ITE && isConst(a->b) && isConst(a->c) && w <= 64) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
	return intern(K_SEXT, w, 0, a, 0, 0);
}

typedef unsigned __int128 u128;
typedef __int128 i128;
static u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static i128 sx128(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); return (i128)((v ^ m) - m); }

static u128 ev(E e, const Model &m) {
	if (e->kind == K_CONST) return e->val;
	if (e->epoch == gEpoch) return e->ev;
	u128 r = 0; unsigned w = e->width;
	u128 mk = mask128(w);
	switch (e->kind) {
	case K_VAR: r = (e->val < m.size() ? m[e->val] : 0) & mk; break;
	case K_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
	case K_CONCAT: r = (ev(e->a, m) << e->b->width) | ev(e->b, m); break;
	case K_EXTRACT: r = (ev(e->a, m) >> e->val) & mk; break;
	case K_ZEXT: r = ev(e->a, m); break;
	case K_SEXT: r = (u128)sx128(ev(e->a, m), e->a->width) & mk; break;
	default: {
		u128 x = ev(e->a, m), y = ev(e->b, m); unsigned aw = e->a->width; u128 am = mask128(aw);
		switch (e->kind) {
		case K_ADD: r = (x + y) & am; break;
		case K_SUB: r = (x - y) & am; break;
		case K_MUL: r = (x * y) & am; break;
		case K_UDIV: r = y ? x / y : am; break;
		case K_UREM: r = y ? x % y : x; break;
		case K_SDIV: { i128 p = sx128(x, aw), q = sx128(y, aw); r = q == 0 ? (p < 0 ? 1 : am) : q == -1 ? (0 - x) & am : (u128)(p / q) & am; break; }
		case K_SREM: { i128 p = sx128(x, aw), q = sx128(y, aw); r = q == 0 ? x : q == -1 ? 0 : (u128)(p % q) & am; break; }
		case K_AND: r = x & y; break;
		case K_OR: r = x | y; break;
		case K_XOR: r = x ^ y; break;
		case K_SHL: r = y >= aw ? 0 : (x << (unsigned)y) & am; break;
		case K_LSHR: r = y >= aw ? 0 : x >> (unsigned)y; break;
		case K_ASHR: { i128 p = sx128(x, aw); r = (u128)(y >= aw ? (p < 0 ? -1 : 0) : p >> (unsigned)y) & am; break; }
		case K_EQ: r = x == y; break;
		case K_ULT: r = x < y; break;
		case K_ULE: r = x <= y; break;
		case K_SLT: r = sx128(x, aw) < sx128(y, aw); break;
		case K_SLE: r = sx128(x, aw) <= sx128(y, aw); break;
		default: abort();
		}
	}
	}
	e->epoch = gEpoch; e->ev = r;
	return r;
}
uint64_t evalExpr(E e, const Model &m) {
	++gEpoch;
	return (uint64_t)ev(e, m);
}

E substExpr(E e, const SubstMap &m, SubstMap &memo, int &budget) {
	if (e->kind == K_CONST) return e;
	auto f = m.find(e);
	if (f != m.end()) return f->second;
	if (e->kind == K_VAR) return e;
	auto g = memo.find(e);
	if (g != memo.end()) return g->second;
	if (--budget < 0) return e;
	E a = e->a ? substExpr(e->a, m, memo, budget) : nullptr;
	E b = e->b ? substExpr(e->b, m, memo, budget) : nullptr;
	E c = e->c ? substExpr(e->c, m, memo, budget) : nullptr;
	E r = e;
	if (a != e->a || b != e->b || c != e->c) {
		switch (e->kind) {
		case K_ITE: r = mkIte(a, b, c); break;
		case K_CONCAT: r = mkConcat(a, b); break;
		case K_EXTRACT: r = mkExtract(a, e->val, e->width); break;
		case K_ZEXT: r = mkZExt(a, e->width); break;
		case K_SEXT: r = mkSExt(a, e->width); break;
		default: r = mkBin(e->kind, a, b); break;
		}
		auto f2 = m.find(r);
		if (f2 != m.end()) r = f2->second;
	}
	memo[e] = r;
	return r;
}
