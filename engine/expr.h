// Hash-consed bit-vector expressions with constant folding and light rewriting.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <unordered_set>
#include <string>

enum Kind : uint8_t {
	K_CONST, K_VAR,
	K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
	K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
	K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
	K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
};

typedef std::vector<uint32_t> VarSet;

struct Expr {
	Kind kind;
	uint16_t width;
	uint32_t id;
	uint64_t val;          // const value, var number, or extract low bit
	const Expr *a, *b, *c;
	uint16_t ew;           // value < 2^ew is known
	const VarSet *vars;    // sorted variable ids
	// evaluation cache
	mutable uint32_t epoch;
	mutable unsigned __int128 ev;
	mutable void *z3;
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
	if (w >= 64) return (int64_t)v;
	uint64_t m = 1ull << (w - 1);
	v &= maskw(w);
	return (int64_t)((v ^ m) - m);
}

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string &name, unsigned w);
E mkBin(Kind k, E a, E b);
E mkNot(E a);              // boolean (width 1) negation
E mkIte(E c, E t, E f);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
static inline E mkEq(E a, E b) { return mkBin(K_EQ, a, b); }
static inline bool isConst(E e) { return e->kind == K_CONST; }
static inline bool isTrue(E e) { return e->kind == K_CONST && e->val == 1; }
static inline bool isFalse(E e) { return e->kind == K_CONST && e->val == 0; }
E mkAndB(E a, E b);
E mkOrB(E a, E b);

struct VarInfo { std::string name; unsigned width; E expr; };
extern std::vector<VarInfo> gVars;

typedef std::vector<uint64_t> Model;   // by var id; missing = 0
uint64_t evalExpr(E e, const Model &m);
size_t exprCount();
// Replace every sub-expression found in `m` (memoised); used to simplify under the path condition
#include <unordered_map>
typedef std::unordered_map<E, E> SubstMap;
E substExpr(E e, const SubstMap &m, SubstMap &memo, int &budget);
