// A small KLEE-class symbolic executor for LLVM 18 bitcode (C programs),
// deciding branch feasibility and assertions with Z3 over QF_BV.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <array>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <chrono>
#include <random>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <atomic>
#include <memory>

using namespace llvm;
typedef uint64_t u64;

static const DataLayout *DL;
static std::map<std::string, long long> gParams;
static double gMaxTime = 600;
static u64 gMaxInst = 50000000;      // per path
static int gMaxErrors = 3;
static int gWorkers = 1;
static int gPreempt = 2;
static u64 gMaxMemMB = 6000;
static std::string gOutDir;
static bool gUninitSym = false;
static bool gTrace = false;
static bool gSplitClz = false;
static bool gRaces = false, gDedup = false;
static std::chrono::steady_clock::time_point gStart;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - gStart).count(); }

// ---------------------------------------------------------------- values
struct Val { u64 c; E e; };
static inline Val CV(u64 c) { return Val{c, nullptr}; }
static inline Val EV(E e) { if (isConst(e) && e->width <= 64) return CV(e->val); return Val{0, e}; }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- memory
struct Obj {
	int rc;
	u64 base, size;
	bool freed, ro, heap;
	const char *what;
	std::vector<uint8_t> c;
	std::vector<E> s;      // empty or size entries (nullptr = concrete)
	std::vector<bool> poison; // empty or size entries
	u64 hash = 0; bool hashed = false;
};
struct ORef {
	Obj *p;
	ORef() : p(nullptr) {}
	explicit ORef(Obj *o) : p(o) { if (p) p->rc++; }
	ORef(const ORef &o) : p(o.p) { if (p) p->rc++; }
	ORef(ORef &&o) noexcept : p(o.p) { o.p = nullptr; }
	ORef &operator=(const ORef &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
	ORef &operator=(ORef &&o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
	~ORef() { drop(); }
	void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
	Obj *operator->() const { return p; }
};

static const u64 CODE_BASE = 0x100000ull;
static const u64 GLOB_BASE = 0x10000000ull;
static const u64 STACK_BASE = 0x7f0000000000ull;
static const u64 STACK_STRIDE = 0x10000000ull;
static const u64 HEAP_BASE = 0x500000000000ull;

static std::vector<ORef> gRoObjs;      // constant globals (sorted by base)

// ---------------------------------------------------------------- decoded code
struct Opnd { int slot; u64 c; };
struct Edge { int target; std::vector<std::pair<int, Opnd>> moves; std::vector<int> n; };
struct DInst {
	const Instruction *I;
	unsigned op;
	unsigned width;       // result width (bits)
	unsigned owidth;      // operand width
	int dest;
	int pred;
	Opnd a, b, c;
	std::vector<Opnd> ops;
	std::vector<u64> scale;
	std::vector<Edge> edges;
	std::vector<u64> cases;
	const Function *callee;
	u64 extra;
	unsigned intrin;
};
struct DBlock { std::vector<DInst> insts; };
struct DFunc { const Function *F; int nslots; std::vector<DBlock> blocks; std::vector<int> argslots; std::string name; bool seen; u64 codeAddr; bool repo; };

static std::unordered_map<const Function *, DFunc *> gFuncs;
static std::unordered_map<u64, const Function *> gCode;
static std::unordered_map<const Function *, u64> gCodeAddr;
static std::unordered_map<const GlobalVariable *, u64> gGlobAddr;
static std::set<std::string> gCovered;

struct EngineErr { std::string msg; };
[[noreturn]] static void engineFail(const std::string &m) { throw EngineErr{m}; }

// ---------------------------------------------------------------- state
struct Frame {
	DFunc *f; int block, pc;
	std::vector<Val> regs;
	size_t stackMark;            // number of stack objects on entry
	u64 stackTop;
	std::vector<Val> varargs; std::vector<unsigned> varw;
	int retDest;
	const Instruction *callSite;
};
struct Thread {
	std::vector<Frame> frames;
	std::vector<ORef> stack;
	u64 stackTop;
	enum { RUN, WAIT, DONE } st;
	u64 waitKey;
	bool irq = false;            // an interrupt of thread 0: runs to completion once started
	bool sched;                  // already scheduled for the pending op
};
// happens-before tracking (vector clocks), for data races between threads
typedef std::array<uint32_t, 6> VC;
static void vjoin(VC &a, const VC &b) { for (size_t i = 0; i < a.size(); ++i) a[i] = std::max(a[i], b[i]); }
struct Shadow { uint8_t wt; uint32_t wc; VC r; const char *wf; const char *rf[6]; };
struct HB { std::vector<VC> th, relF, acqP; std::unordered_map<u64, VC> loc; std::unordered_map<u64, Shadow> sh; };
struct Input { std::string name; std::vector<E> bytes; unsigned width; u64 conc; bool isConc; };
struct State {
	std::shared_ptr<SubstMap> subst; size_t substN = 0;
	std::vector<Thread> th; int cur;
	std::vector<ORef> globs;     // mutable globals sorted by base
	std::vector<ORef> heap;      // sorted by base
	u64 heapTop;
	std::vector<E> pc;
	Model model;
	std::vector<Input> inputs;
	u64 insts;
	int preempts;
	int depth;
	std::vector<std::string> notes;
	std::map<std::string, int> nameCount;
	std::shared_ptr<HB> hb;
	int irqParent = -1;
	std::vector<std::shared_ptr<State>> forks; // parents suspended by __sym_fork()
};

static u64 gInsts, gPaths, gForks, gAsserts, gAssertsSym, gKilled, gPruned;
static std::map<std::string, u64> gCovers;
static std::map<std::string, u64> gErrSeen;
static int gErrors;
static bool gStop, gTimeout, gUnknown;
static std::vector<State *> gWork;
static std::vector<std::string> gIncomplete;
static u64 gMaxHeapAllocs;

struct Shared { std::atomic<int> tokens; std::atomic<int> stop; std::atomic<int> live; std::atomic<int> seq; std::atomic<int> errs; };
static Shared *gSh;

// thrown to kill the current path
struct PathEnd {};

static std::string jsonEsc(const std::string &s) {
	std::string r;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
		else r += ch;
	}
	return r;
}

static std::string where(State &s) {
	std::string r;
	Thread &t = s.th[s.cur];
	int n = 0;
	for (size_t i = t.frames.size(); i-- > 0 && n < 14; ++n) {
		Frame &f = t.frames[i];
		const Instruction *I = nullptr;
		if (i + 1 == t.frames.size()) { if (f.pc < (int)f.f->blocks[f.block].insts.size()) I = f.f->blocks[f.block].insts[f.pc].I; }
		else I = t.frames[i + 1].callSite;
		if (!r.empty()) r += " < ";
		r += f.f->name;
		if (I && I->getDebugLoc()) r += ":" + std::to_string(I->getDebugLoc().getLine());
	}
	return r;
}

static void dumpInputs(State &s, FILE *f, const Model &m) {
	for (auto &in : s.inputs) {
		fprintf(f, "%s", in.name.c_str());
		if (in.isConc) { fprintf(f, " v %llu\n", (unsigned long long)in.conc); continue; }
		if (in.width) fprintf(f, " v %llu\n", (unsigned long long)evalExpr(in.bytes[0], m));
		else {
			fprintf(f, " m ");
			for (auto b : in.bytes) fprintf(f, "%02x", (unsigned)evalExpr(b, m));
			fprintf(f, "\n");
		}
	}
}

static FILE *gErrFile() {
	static FILE *f = nullptr; static pid_t pid = 0;
	if (!f || pid != getpid()) { f = fopen((gOutDir + "/errors.jsonl").c_str(), "a"); pid = getpid(); }
	return f;
}

static void reportError(State &s, const std::string &kind, const std::string &msg, const Model &m) {
	std::string w = where(s);
	std::string key = kind + "|" + msg + "|" + w.substr(0, w.find(" < "));
	if (gErrSeen[key]++) return;
	gErrors++;
	int id = gSh->errs.fetch_add(1);
	std::string path = gOutDir + "/err" + std::to_string(id) + ".in";
	FILE *f = fopen(path.c_str(), "w");
	dumpInputs(s, f, m);
	fclose(f);
	std::string notes;
	for (auto &n : s.notes) notes += n + "; ";
	FILE *o = gErrFile();
	fprintf(o, "{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":\"%s\",\"notes\":\"%s\"}\n",
		jsonEsc(kind).c_str(), jsonEsc(msg).c_str(), jsonEsc(w).c_str(), jsonEsc(path).c_str(), jsonEsc(notes).c_str());
	fflush(o);
	if (kind != "model" && id + 1 >= gMaxErrors) gSh->stop = 1;
}
[[noreturn]] static void pathError(State &s, const std::string &kind, const std::string &msg) {
	reportError(s, kind, msg, s.model);
	throw PathEnd();
}

// ---------------------------------------------------------------- solving helpers
static void addPC(State &s, E c) {
	if (isTrue(c)) return;
	if (c->kind == K_AND && c->width == 1) { addPC(s, c->a); addPC(s, c->b); return; }
	s.pc.push_back(c);
}
// Simplify an expression using the equalities and literals of the path condition
static E simp(State &s, E e) {
	if (isConst(e) || s.pc.empty()) return e;
	if (!s.subst) { s.subst = std::make_shared<SubstMap>(); s.substN = 0; }
	if (s.substN < s.pc.size()) {
		if (s.subst.use_count() > 1) s.subst = std::make_shared<SubstMap>(*s.subst);
		SubstMap &m = *s.subst;
		E one = mkConst(1, 1), zero = mkConst(0, 1);
		for (; s.substN < s.pc.size(); ++s.substN) {
			E c = s.pc[s.substN];
			m[c] = one;
			E n = mkNot(c);
			m[n] = zero;
			if (c->kind == K_EQ && isConst(c->b) && !isConst(c->a)) m[c->a] = c->b;
		}
	}
	SubstMap memo; int budget = 4000;
	return substExpr(e, *s.subst, memo, budget);
}
static SatResult feasible(State &s, E c, Model &m) {
	c = simp(s, c);
	SatResult r = checkSat(s.pc, c, s.model, m);
	if (r == UNKNOWN) { gUnknown = true; }
	return r;
}
static State *forkState(State &s) { gForks++; State *n = new State(s); n->depth++; return n; }

// Branch on a symbolic condition.  Returns the side this state follows; pushes the other.
// `onOther` adjusts the forked state (which has cond negated).
static bool branchOn(State &s, E cond, const std::function<void(State &, bool)> &onOther) {
	cond = simp(s, cond);
	if (isConst(cond)) return cond->val;
	bool mv = evalExpr(cond, s.model);
	// the side given by the model is feasible; check the other one
	E other = mv ? mkNot(cond) : cond;
	Model om;
	SatResult r = checkSat(s.pc, other, s.model, om);
	if (r == UNKNOWN) gUnknown = true;
	if (r == SAT) {
		State *n = forkState(s);
		addPC(*n, other);
		n->model = std::move(om);
		onOther(*n, !mv);
		gWork.push_back(n);
	}
	if (r != UNSAT) addPC(s, mv ? cond : mkNot(cond));
	return mv;
}

// Make `v` concrete by forking over all feasible values (re-executing the current instruction in forks)
static u64 concretize(State &s, const Val &v, unsigned w) {
	if (!v.e) return v.c;
	E e = simp(s, v.e);
	if (isConst(e)) return e->val;
	u64 val = evalExpr(e, s.model) & maskw(w);
	E eq = mkEq(e, mkConst(val, w));
	E ne = mkNot(eq);
	Model om;
	SatResult r = checkSat(s.pc, ne, s.model, om);
	if (r == UNKNOWN) gUnknown = true;
	if (r == SAT) {
		State *n = forkState(s);
		addPC(*n, ne);
		n->model = std::move(om);
		gWork.push_back(n);       // re-executes the same instruction
	}
	if (r != UNSAT) addPC(s, eq);
	return val;
}

// ---------------------------------------------------------------- memory access
static ORef *findIn(std::vector<ORef> &v, u64 addr) {
	size_t lo = 0, hi = v.size();
	while (lo < hi) { size_t mid = (lo + hi) / 2; if (v[mid]->base <= addr) lo = mid + 1; else hi = mid; }
	if (lo == 0) return nullptr;
	ORef *o = &v[lo - 1];
	return addr - (*o)->base <= (*o)->size ? o : nullptr;
}
static ORef *findObj(State &s, u64 addr) {
	if (addr >= STACK_BASE) {
		u64 t = (addr - STACK_BASE) / STACK_STRIDE;
		if (t < s.th.size()) return findIn(s.th[t].stack, addr);
		return nullptr;
	}
	if (addr >= HEAP_BASE) return findIn(s.heap, addr);
	if (addr >= GLOB_BASE) {
		ORef *o = findIn(s.globs, addr);
		if (o && addr - (*o)->base < (*o)->size) return o;
		ORef *r = findIn(gRoObjs, addr);
		return r ? r : o;
	}
	return nullptr;
}
static Obj *writable(ORef *r) {
	if (r->p->rc > 1) { Obj *n = new Obj(*r->p); n->rc = 0; *r = ORef(n); }
	r->p->hashed = false;
	return r->p;
}
static Obj *newObj(u64 base, u64 size, const char *what) {
	Obj *o = new Obj(); o->rc = 0; o->base = base; o->size = size; o->freed = o->ro = o->heap = false; o->what = what;
	o->c.assign(size, 0xA5);
	return o;
}
static std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }

static ORef *checkAccess(State &s, u64 addr, u64 n, bool write) {
	ORef *o = findObj(s, addr);
	if (!o) {
		if (addr < 4096) pathError(s, "memory", "null pointer dereference");
		pathError(s, "memory", std::string("wild ") + (write ? "write" : "read"));
	}
	if ((*o)->freed) pathError(s, "memory", std::string("use after free (") + (write ? "write" : "read") + ")");
	u64 off = addr - (*o)->base;
	if (off + n > (*o)->size) pathError(s, "memory", std::string("out of bounds ") + (write ? "write" : "read"));
	if (write && (*o)->ro) pathError(s, "memory", "write to constant memory");
	if (!(*o)->poison.empty()) {
		for (u64 i = 0; i < n; ++i) if ((*o)->poison[off + i]) pathError(s, "memory", std::string("use of poisoned memory (") + (write ? "write" : "read") + ")");
	}
	return o;
}

static Val loadFrom(Obj *o, u64 off, unsigned n, unsigned width) {
	bool sym = false;
	if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) if (o->s[off + i]) { sym = true; break; }
	if (!sym) {
		u64 v = 0;
		for (unsigned i = 0; i < n && i < 8; ++i) v |= (u64)o->c[off + i] << (8 * i);
		return CV(v & maskw(width));
	}
	E e = nullptr;
	for (unsigned i = 0; i < n; ++i) {
		E b = o->s[off + i] ? o->s[off + i] : mkConst(o->c[off + i], 8);
		e = e ? mkConcat(b, e) : b;
	}
	if (width < n * 8) e = mkExtract(e, 0, width);
	return EV(e);
}
static void storeTo(Obj *o, u64 off, unsigned n, const Val &v, unsigned width) {
	if (!v.e) {
		for (unsigned i = 0; i < n; ++i) o->c[off + i] = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0;
		if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) o->s[off + i] = nullptr;
		return;
	}
	E e = v.e;
	if (e->width < n * 8) e = mkZExt(e, n * 8);
	if (o->s.empty()) o->s.assign(o->size, nullptr);
	for (unsigned i = 0; i < n; ++i) {
		E b = mkExtract(e, i * 8, 8);
		if (isConst(b)) { o->c[off + i] = b->val; o->s[off + i] = nullptr; }
		else o->s[off + i] = b;
	}
}

static unsigned bytesOf(unsigned w) { return (w + 7) / 8; }

static Val memRead(State &s, const Val &addr, unsigned width) {
	unsigned n = bytesOf(width);
	if (!addr.e) {
		ORef *o = checkAccess(s, addr.c, n, false);
		return loadFrom(o->p, addr.c - (*o)->base, n, width);
	}
	// symbolic address: find the object for the model's value, split on being inside it
	{
		E sa = simp(s, addr.e);
		if (sa != addr.e) return memRead(s, EV(sa), width);
	}
	u64 v = evalExpr(addr.e, s.model);
	ORef *o = findObj(s, v);
	if (!o || (*o)->freed || v - (*o)->base + n > (*o)->size) {
		u64 cv = concretize(s, addr, 64);
		checkAccess(s, cv, n, false);
		engineFail("unreachable");
	}
	u64 base = (*o)->base, size = (*o)->size;
	if (size > 2048) {
		u64 cv = concretize(s, addr, 64);
		o = checkAccess(s, cv, n, false);
		return loadFrom(o->p, cv - (*o)->base, n, width);
	}
	E off = mkBin(K_SUB, addr.e, mkConst(base, 64));
	E inb = mkBin(K_ULE, off, mkConst(size - n, 64));
	bool in = branchOn(s, inb, [](State &, bool) {});
	if (!in) engineFail("symbolic read resolution");
	Obj *ob = o->p;
	// feasible offsets only
	Val r = CV(0); bool first = true; E acc = nullptr;
	std::vector<std::pair<u64, Val>> cand;
	// determine stride via known low zero bits of off
	for (u64 i = 0; i + n <= size; ++i) {
		E eq = mkEq(off, mkConst(i, 64));
		if (isFalse(eq)) continue;
		cand.push_back({i, loadFrom(ob, i, n, width)});
	}
	if (cand.size() > 40 && !ob->ro) {
		// many candidates in a mutable object: ask the solver which offsets are feasible
		std::vector<std::pair<u64, Val>> few;
		E rest = mkConst(1, 1);
		bool all = false;
		while (few.size() < 24) {
			Model mm;
			if (feasible(s, rest, mm) != SAT) { all = true; break; }
			u64 ov = evalExpr(off, mm);
			if (ov + n > size) break;
			few.push_back({ov, loadFrom(ob, ov, n, width)});
			rest = mkAndB(rest, mkNot(mkEq(off, mkConst(ov, 64))));
		}
		if (all && !few.empty()) cand.swap(few);
	}
	for (size_t k = cand.size(); k-- > 0;) {
		E ve = toE(cand[k].second, width);
		if (first) { acc = ve; first = false; }
		else acc = mkIte(mkEq(off, mkConst(cand[k].first, 64)), ve, acc);
	}
	if (!acc) engineFail("no candidate offsets");
	r = EV(acc);
	return r;
}
static void memWrite(State &s, const Val &addr, const Val &v, unsigned width) {
	unsigned n = bytesOf(width);
	u64 a = concretize(s, addr, 64);
	ORef *o = checkAccess(s, a, n, true);
	storeTo(writable(o), a - (*o)->base, n, v, width);
}

static u64 heapAlloc(State &s, u64 size, u64 align, bool zero) {
	if (align < 16) align = 16;
	u64 base = (s.heapTop + align - 1) / align * align;
	s.heapTop = base + size + 32;
	s.heapTop = (s.heapTop + 15) & ~15ull;
	Obj *o = newObj(base, size, "heap");
	o->heap = true;
	if (zero) std::fill(o->c.begin(), o->c.end(), 0);
	else if (gUninitSym) {
		o->s.assign(size, nullptr);
		for (u64 i = 0; i < size && i < 4096; ++i) o->s[i] = mkVar("uninit", 8);
	}
	s.heap.push_back(ORef(o));
	return base;
}

static std::string readCStr(State &s, u64 addr) {
	std::string r;
	for (int i = 0; i < 4096; ++i) {
		Val v = memRead(s, CV(addr + i), 8);
		if (v.e) { r += '?'; continue; }
		if (!v.c) break;
		r += (char)v.c;
	}
	return r;
}

// ---------------------------------------------------------------- decoding
struct Decoder {
	DFunc *df;
	std::unordered_map<const Value *, int> slots;
	std::unordered_map<const BasicBlock *, int> bbs;

	static unsigned nflat(Type *t) {
		if (auto *st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : st->elements()) n += nflat(e); return n; }
		if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * nflat(at->getElementType());
		if (t->isVectorTy()) engineFail("vector type");
		if (t->isVoidTy()) return 0;
		return 1;
	}
	static unsigned bitw(Type *t) {
		if (t->isPointerTy()) return 64;
		if (t->isIntegerTy()) return t->getIntegerBitWidth();
		if (t->isDoubleTy()) return 64;
		if (t->isFloatTy()) return 32;
		if (t->isStructTy() || t->isArrayTy() || t->isVoidTy()) return 0;
		if (t->isX86_FP80Ty()) return 80;
		std::string str; raw_string_ostream os(str); t->print(os);
		engineFail("unsupported type " + os.str());
	}
	Opnd opnd(const Value *v);
};

static u64 constVal(const Constant *c);
static u64 globAddr(const GlobalValue *g) {
	if (auto *f = dyn_cast<Function>(g)) {
		auto it = gCodeAddr.find(f);
		if (it == gCodeAddr.end()) engineFail("no code addr");
		return it->second;
	}
	if (auto *a = dyn_cast<GlobalAlias>(g)) return constVal(a->getAliasee());
	auto it = gGlobAddr.find(cast<GlobalVariable>(g));
	if (it == gGlobAddr.end()) engineFail("no global addr " + g->getName().str());
	return it->second;
}
static u64 constVal(const Constant *c) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getBitWidth() <= 64 ? ci->getZExtValue() : ci->getValue().getRawData()[0];
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
	if (auto *cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getRawData()[0];
	if (auto *g = dyn_cast<GlobalValue>(c)) return globAddr(g);
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			auto *gep = cast<GEPOperator>(ce);
			u64 base = constVal(cast<Constant>(gep->getPointerOperand()));
			APInt off(64, 0);
			if (!gep->accumulateConstantOffset(*DL, off)) engineFail("constexpr gep");
			return base + off.getSExtValue();
		}
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
			u64 v = constVal(ce->getOperand(0)); return v & maskw(Decoder::bitw(ce->getType())); }
		case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(Decoder::bitw(ce->getType()));
		case Instruction::Sub: return (constVal(ce->getOperand(0)) - constVal(ce->getOperand(1))) & maskw(Decoder::bitw(ce->getType()));
		case Instruction::Add: return (constVal(ce->getOperand(0)) + constVal(ce->getOperand(1))) & maskw(Decoder::bitw(ce->getType()));
		default: break;
		}
	}
	std::string str; raw_string_ostream os(str); c->print(os);
	engineFail("unsupported constant " + os.str());
}
static void writeConst(std::vector<uint8_t> &buf, u64 off, const Constant *c) {
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
	if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
		StringRef d = cds->getRawDataValues();
		memcpy(&buf[off], d.data(), d.size());
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); ++i) writeConst(buf, off + i * es, ca->getOperand(i));
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		const StructLayout *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); ++i) writeConst(buf, off + sl->getElementOffset(i), cs->getOperand(i));
		return;
	}
	u64 v = constVal(c);
	u64 n = DL->getTypeStoreSize(t);
	for (u64 i = 0; i < n && i < 8; ++i) buf[off + i] = v >> (8 * i);
}

Opnd Decoder::opnd(const Value *v) {
	auto it = slots.find(v);
	if (it != slots.end()) return {it->second, 0};
	if (auto *c = dyn_cast<Constant>(v)) {
		if (c->getType()->isStructTy() || c->getType()->isArrayTy()) {
			// materialise the aggregate constant? Only undef/zero supported.
			return {-2, 0};
		}
		return {-1, constVal(c)};
	}
	if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return {-1, 0};
	engineFail("operand");
}

static DFunc *decode(const Function *F) {
	auto it = gFuncs.find(F);
	if (it != gFuncs.end()) return it->second;
	DFunc *df = new DFunc();
	df->F = F; df->name = F->getName().str(); df->seen = false;
	if (auto *sp = F->getSubprogram()) df->repo = (sp->getFilename().contains("/src/") || sp->getFilename().contains("/harness/")) && !sp->getFilename().contains("/lib/"); else df->repo = false;
	Decoder d; d.df = df;
	int ns = 0;
	for (auto &A : F->args()) { d.slots[&A] = ns; df->argslots.push_back(ns); ns += Decoder::nflat(A.getType()); }
	int bi = 0;
	for (auto &BB : *F) {
		d.bbs[&BB] = bi++;
		for (auto &I : BB) {
			if (I.getType()->isVoidTy()) continue;
			d.slots[&I] = ns; ns += Decoder::nflat(I.getType());
		}
	}
	df->nslots = ns;
	df->blocks.resize(bi);
	auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) {
		Edge e; e.target = d.bbs[to];
		for (auto &P : to->phis()) {
			const Value *v = P.getIncomingValueForBlock(from);
			Opnd o = d.opnd(v);
			unsigned n = Decoder::nflat(P.getType());
			e.moves.push_back({d.slots[&P], o}); e.n.push_back(n);
		}
		return e;
	};
	for (auto &BB : *F) {
		DBlock &db = df->blocks[d.bbs[&BB]];
		for (auto &I : BB) {
			if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
			DInst x; x.I = &I; x.op = I.getOpcode(); x.width = Decoder::bitw(I.getType()); x.owidth = 0; x.dest = -1; x.pred = 0; x.callee = nullptr; x.extra = 0; x.intrin = 0;
			x.a = x.b = x.c = Opnd{-1, 0};
			if (!I.getType()->isVoidTy()) x.dest = d.slots[&I];
			switch (I.getOpcode()) {
			case Instruction::Br: {
				auto &B = cast<BranchInst>(I);
				if (B.isConditional()) x.a = d.opnd(B.getCondition());
				for (unsigned i = 0; i < B.getNumSuccessors(); ++i) x.edges.push_back(mkEdge(&BB, B.getSuccessor(i)));
				x.extra = B.isConditional();
				break;
			}
			case Instruction::Switch: {
				auto &S = cast<SwitchInst>(I);
				x.a = d.opnd(S.getCondition()); x.owidth = Decoder::bitw(S.getCondition()->getType());
				x.edges.push_back(mkEdge(&BB, S.getDefaultDest()));
				for (auto &c : S.cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.edges.push_back(mkEdge(&BB, c.getCaseSuccessor())); }
				break;
			}
			case Instruction::Ret: {
				auto &R = cast<ReturnInst>(I);
				if (R.getReturnValue()) { x.a = d.opnd(R.getReturnValue()); x.extra = Decoder::nflat(R.getReturnValue()->getType()); }
				break;
			}
			case Instruction::Alloca: {
				auto &A = cast<AllocaInst>(I);
				x.extra = DL->getTypeAllocSize(A.getAllocatedType());
				x.a = d.opnd(A.getArraySize());
				x.owidth = Decoder::bitw(A.getArraySize()->getType());
				x.pred = A.getAlign().value();
				break;
			}
			case Instruction::Load: x.a = d.opnd(I.getOperand(0)); x.extra = Decoder::nflat(I.getType()); if (x.extra != 1) engineFail("aggregate load"); break;
			case Instruction::Store: x.a = d.opnd(I.getOperand(1)); x.b = d.opnd(I.getOperand(0)); x.owidth = Decoder::bitw(I.getOperand(0)->getType());
				if (!x.owidth) { x.op = 10000; x.extra = Decoder::nflat(I.getOperand(0)->getType()); }
				break;
			case Instruction::GetElementPtr: {
				auto &G = cast<GetElementPtrInst>(I);
				x.a = d.opnd(G.getPointerOperand());
				u64 off = 0;
				for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
					const Value *idx = gti.getOperand();
					if (StructType *st = gti.getStructTypeOrNull()) {
						off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
					} else {
						u64 es = DL->getTypeAllocSize(gti.getIndexedType());
						if (auto *ci = dyn_cast<ConstantInt>(idx)) off += es * (u64)ci->getSExtValue();
						else { x.ops.push_back(d.opnd(idx)); x.scale.push_back(es); x.cases.push_back(Decoder::bitw(idx->getType())); }
					}
				}
				x.extra = off;
				break;
			}
			case Instruction::ICmp: case Instruction::FCmp: {
				auto &C = cast<CmpInst>(I);
				x.pred = C.getPredicate(); x.a = d.opnd(I.getOperand(0)); x.b = d.opnd(I.getOperand(1)); x.owidth = Decoder::bitw(I.getOperand(0)->getType());
				break;
			}
			case Instruction::Select: x.a = d.opnd(I.getOperand(0)); x.b = d.opnd(I.getOperand(1)); x.c = d.opnd(I.getOperand(2)); x.extra = Decoder::nflat(I.getType()); break;
			case Instruction::ExtractValue: {
				auto &V = cast<ExtractValueInst>(I);
				x.a = d.opnd(V.getAggregateOperand());
				Type *t = V.getAggregateOperand()->getType(); unsigned off = 0;
				for (unsigned ix : V.indices()) {
					if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; ++k) off += Decoder::nflat(st->getElementType(k)); t = st->getElementType(ix); }
					else { auto *at = cast<ArrayType>(t); off += ix * Decoder::nflat(at->getElementType()); t = at->getElementType(); }
				}
				x.extra = off; x.pred = Decoder::nflat(I.getType());
				break;
			}
			case Instruction::InsertValue: {
				auto &V = cast<InsertValueInst>(I);
				x.a = d.opnd(V.getAggregateOperand()); x.b = d.opnd(V.getInsertedValueOperand());
				Type *t = V.getAggregateOperand()->getType(); unsigned off = 0;
				x.owidth = Decoder::nflat(t);
				for (unsigned ix : V.indices()) {
					if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; ++k) off += Decoder::nflat(st->getElementType(k)); t = st->getElementType(ix); }
					else { auto *at = cast<ArrayType>(t); off += ix * Decoder::nflat(at->getElementType()); t = at->getElementType(); }
				}
				x.extra = off; x.pred = Decoder::nflat(V.getInsertedValueOperand()->getType());
				break;
			}
			case Instruction::Call: {
				auto &C = cast<CallInst>(I);
				x.callee = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts());
				if (auto *al = dyn_cast<GlobalAlias>(C.getCalledOperand())) x.callee = dyn_cast<Function>(al->getAliaseeObject());
				if (C.isInlineAsm()) { x.op = 10001; break; }
				if (x.callee && x.callee->isIntrinsic()) x.intrin = x.callee->getIntrinsicID();
				if (!x.callee) x.a = d.opnd(C.getCalledOperand());
				for (unsigned i = 0; i < C.arg_size(); ++i) {
					const Value *v = C.getArgOperand(i);
					if (isa<MetadataAsValue>(v)) { x.ops.push_back({-1, 0}); x.scale.push_back(0); x.cases.push_back(0); continue; }
					x.ops.push_back(d.opnd(v));
					x.cases.push_back(v->getType()->isStructTy() ? 0 : Decoder::bitw(v->getType()));
					x.scale.push_back(C.isByValArgument(i) ? (u64)DL->getTypeAllocSize(C.getParamByValType(i)) : 0);
				}
				x.extra = Decoder::nflat(I.getType());
				break;
			}
			case Instruction::AtomicCmpXchg:
				x.a = d.opnd(I.getOperand(0)); x.b = d.opnd(I.getOperand(1)); x.c = d.opnd(I.getOperand(2)); x.owidth = Decoder::bitw(I.getOperand(1)->getType()); break;
			case Instruction::AtomicRMW:
				x.a = d.opnd(I.getOperand(0)); x.b = d.opnd(I.getOperand(1)); x.owidth = Decoder::bitw(I.getOperand(1)->getType()); x.pred = cast<AtomicRMWInst>(I).getOperation(); break;
			default:
				if (I.getNumOperands() > 0) { x.a = d.opnd(I.getOperand(0)); if (!I.getOperand(0)->getType()->isLabelTy()) x.owidth = Decoder::bitw(I.getOperand(0)->getType()); }
				if (I.getNumOperands() > 1) x.b = d.opnd(I.getOperand(1));
				break;
			}
			db.insts.push_back(std::move(x));
		}
	}
	gFuncs[F] = df;
	return df;
}

// ---------------------------------------------------------------- execution
static inline Val get(Frame &f, const Opnd &o) { return o.slot >= 0 ? f.regs[o.slot] : CV(o.c); }

static void takeEdge(Frame &f, const Edge &e) {
	if (!e.moves.empty()) {
		std::vector<Val> tmp;
		for (size_t i = 0; i < e.moves.size(); ++i)
			for (int k = 0; k < e.n[i]; ++k) {
				Opnd o = e.moves[i].second;
				tmp.push_back(o.slot >= 0 ? f.regs[o.slot + k] : CV(o.c));
			}
		size_t j = 0;
		for (size_t i = 0; i < e.moves.size(); ++i)
			for (int k = 0; k < e.n[i]; ++k) f.regs[e.moves[i].first + k] = tmp[j++];
	}
	f.block = e.target; f.pc = 0;
}

static void pushFrame(State &s, Thread &t, DFunc *df, const std::vector<Val> &args, const std::vector<unsigned> &ws, int retDest, const Instruction *site) {
	if (t.frames.size() > 400) pathError(s, "hang", "call depth exceeded");
	Frame fr;
	fr.f = df; fr.block = 0; fr.pc = 0; fr.regs.assign(df->nslots, CV(0));
	fr.stackMark = t.stack.size(); fr.stackTop = t.stackTop; fr.retDest = retDest; fr.callSite = site;
	size_t n = df->F->arg_size();
	size_t j = 0;
	for (size_t i = 0; i < n; ++i) { if (j < args.size()) fr.regs[df->argslots[i]] = args[j]; ++j; }
	for (; j < args.size(); ++j) { fr.varargs.push_back(args[j]); fr.varw.push_back(ws[j]); }
	if (!df->seen) { df->seen = true; gCovered.insert(df->name); }
	t.frames.push_back(std::move(fr));
}

static HB &hbOf(State &s);
static u64 stackAlloc(State &s, Thread &t, u64 size, u64 align, const char *what) {
	if (align < 16) align = 16;
	u64 base = (t.stackTop + align - 1) / align * align;
	t.stackTop = base + size + 32;
	u64 tid = &t - &s.th[0];
	if (t.stackTop > STACK_BASE + (tid + 1) * STACK_STRIDE) pathError(s, "memory", "stack overflow");
	Obj *o = newObj(base, size, what);
	if (s.hb && s.th.size() > 1) { HB &h = hbOf(s); for (u64 i = 0; i < size; ++i) h.sh.erase(base + i); }
	t.stack.push_back(ORef(o));
	return base;
}

static Val binop(State &s, Kind k, const Val &a, const Val &b, unsigned w) {
	if (!a.e && !b.e) {
		u64 m = maskw(w), x = a.c, y = b.c;
		switch (k) {
		case K_ADD: return CV((x + y) & m);
		case K_SUB: return CV((x - y) & m);
		case K_MUL: return CV((x * y) & m);
		case K_AND: return CV(x & y);
		case K_OR: return CV(x | y);
		case K_XOR: return CV(x ^ y);
		default: break;
		}
	}
	return EV(mkBin(k, toE(a, w), toE(b, w)));
}

// ---------------------------------------------------------------- data races
static HB &hbOf(State &s) {
	if (!s.hb) s.hb = std::make_shared<HB>();
	else if (s.hb.use_count() > 1) s.hb = std::make_shared<HB>(*s.hb);
	HB &h = *s.hb;
	while (h.th.size() < s.th.size()) { VC v{}; v[h.th.size()] = 1; h.th.push_back(v); h.relF.push_back(VC{}); h.acqP.push_back(VC{}); }
	return h;
}
static void hbSpawn(State &s, size_t child) {
	if (!gRaces) return;
	if (child >= 6) engineFail("too many threads");
	HB &h = hbOf(s);
	vjoin(h.th[child], h.th[s.cur]);
	h.th[s.cur][s.cur]++;
}
static void hbJoin(State &s, size_t child) { if (!gRaces) return; HB &h = hbOf(s); vjoin(h.th[s.cur], h.th[child]); }
static void hbRelease(State &s, u64 key) { if (!gRaces || s.th.size() < 2) return; HB &h = hbOf(s); vjoin(h.loc[key], h.th[s.cur]); h.th[s.cur][s.cur]++; }
static void hbAcquire(State &s, u64 key) { if (!gRaces || s.th.size() < 2) return; HB &h = hbOf(s); vjoin(h.th[s.cur], h.loc[key]); }
static void hbAtomic(State &s, const Val &a, AtomicOrdering o, bool rd, bool wr) {
	if (!gRaces || s.th.size() < 2 || a.e) return;
	HB &h = hbOf(s);
	VC &t = h.th[s.cur], &l = h.loc[a.c];
	if (rd) { if (isAcquireOrStronger(o)) vjoin(t, l); else vjoin(h.acqP[s.cur], l); }
	if (wr) {
		if (!rd) l = VC{};
		if (isReleaseOrStronger(o)) { vjoin(l, t); t[s.cur]++; } else vjoin(l, h.relF[s.cur]);
	}
}
static void hbFence(State &s, AtomicOrdering o) {
	if (!gRaces || s.th.size() < 2) return;
	HB &h = hbOf(s);
	if (isAcquireOrStronger(o)) vjoin(h.th[s.cur], h.acqP[s.cur]);
	if (isReleaseOrStronger(o)) { vjoin(h.relF[s.cur], h.th[s.cur]); h.th[s.cur][s.cur]++; }
}
static void hbAccess(State &s, const Val &a, u64 n, bool wr, bool any = false) {
	if (!gRaces || s.th.size() < 2 || a.e) return;
	Frame &f = s.th[s.cur].frames.back();
	if (!f.f->repo && !any) return;
	HB &h = hbOf(s);
	VC &t = h.th[s.cur];
	for (u64 i = 0; i < n; ++i) {
		Shadow &x = h.sh[a.c + i];
		const char *other = nullptr;
		if (x.wc > t[x.wt]) other = x.wf;
		if (wr) for (size_t j = 0; j < x.r.size() && !other; ++j) if (x.r[j] > t[j]) other = x.rf[j];
		if (other) pathError(s, "race", std::string("data race: ") + (wr ? "write in " : "read in ") + f.f->name + " is not ordered with an access in " + other);
		if (wr) { x.wt = s.cur; x.wc = t[s.cur]; x.wf = f.f->name.c_str(); x.r = VC{}; }
		else { x.r[s.cur] = t[s.cur]; x.rf[s.cur] = f.f->name.c_str(); }
	}
}

static bool runnable(Thread &t) { return t.st == Thread::RUN; }

// Scheduling point.  Returns false if the current thread was switched out before executing.
static void switchTo(State &s, int i) { s.cur = i; s.th[i].sched = true; }
// Schedules that reach the same state (memory, registers, threads, constraints) with no fewer
// preemptions left are explored once.
static inline u64 mix(u64 h, u64 v) { h ^= v; h *= 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); }
static u64 objHash(Obj *o) {
	if (o->hashed) return o->hash;
	u64 h = mix(o->base, o->size * 2 + o->freed);
	size_t i = 0, n = o->c.size();
	for (; i + 8 <= n; i += 8) { u64 v; memcpy(&v, &o->c[i], 8); h = mix(h, v); }
	for (; i < n; ++i) h = mix(h, o->c[i]);
	if (!o->s.empty()) for (size_t j = 0; j < o->s.size(); ++j) if (o->s[j]) h = mix(h, (u64)o->s[j] + j);
	if (!o->poison.empty()) for (size_t j = 0; j < o->poison.size(); ++j) if (o->poison[j]) h = mix(h, j + 77);
	o->hash = h; o->hashed = true;
	return h;
}
static u64 stateHash(State &s) {
	u64 h = mix(s.cur, s.th.size());
	h = mix(h, s.irqParent + 5); h = mix(h, s.heapTop);
	for (auto &o : s.globs) h = mix(h, objHash(o.p));
	for (auto &o : s.heap) h = mix(h, objHash(o.p));
	for (auto &t : s.th) {
		h = mix(h, t.st * 4 + t.irq * 2 + t.sched); h = mix(h, t.waitKey); h = mix(h, t.stackTop);
		for (auto &o : t.stack) h = mix(h, objHash(o.p));
		for (auto &f : t.frames) {
			h = mix(h, (u64)f.f); h = mix(h, ((u64)f.block << 32) + f.pc);
			for (auto &v : f.regs) h = mix(mix(h, v.c), (u64)v.e);
			for (auto &v : f.varargs) h = mix(mix(h, v.c), (u64)v.e);
		}
	}
	for (auto e : s.pc) h = mix(h, (u64)e);
	return h;
}
static std::unordered_map<u64, int> gSeen;
static u64 gMerged;
static void dedup(State &s) {
	auto r = gSeen.emplace(stateHash(s), s.preempts);
	if (r.second) return;
	if (r.first->second <= s.preempts) { gMerged++; throw PathEnd(); }
	r.first->second = s.preempts;
}
static void enterIrq(State &s, int i, bool preempt) {
	s.irqParent = preempt ? 0 : -1;
	if (gRaces) { HB &h = hbOf(s); vjoin(h.th[i], h.th[0]); }
}
static bool schedPoint(State &s) {
	int live = 0;
	for (auto &t : s.th) if (runnable(t)) live++;
	Thread &me = s.th[s.cur];
	if (me.sched) { me.sched = false; return true; }
	if (live <= 1 || me.irq) return true;
	if (gDedup) dedup(s);
	// symbolic choice: fork one state per alternative thread (a preemption)
	if (s.preempts < gPreempt) {
		for (size_t i = 0; i < s.th.size(); ++i) {
			if ((int)i == s.cur || !runnable(s.th[i])) continue;
			if (s.th[i].irq && s.cur != 0) continue;
			State *n = forkState(s);
			n->preempts++;
			n->th[n->cur].sched = false;
			if (n->th[i].irq) enterIrq(*n, i, true);
			n->cur = i; n->th[i].sched = true;
			n->inputs.push_back({"__sched", {}, 32, (u64)i, true});
			gWork.push_back(n);
		}
	}
	s.inputs.push_back({"__sched", {}, 32, (u64)s.cur, true});
	return true;
}
// current thread cannot continue: pick another runnable thread (all choices explored)
static void schedBlocked(State &s) {
	std::vector<int> r;
	for (size_t i = 0; i < s.th.size(); ++i) if (runnable(s.th[i])) r.push_back(i);
	if (s.th[s.cur].irq && s.th[s.cur].st == Thread::WAIT) {
		// a blocked interrupt handler: only other threads can make progress
		std::vector<int> o;
		for (int i : r) if (!s.th[i].irq && i != 0) o.push_back(i);
		r = o;
	}
	if (r.empty()) pathError(s, "deadlock", "deadlock: all threads blocked");
	if (gDedup && r.size() > 1) dedup(s);
	for (size_t k = 1; k < r.size(); ++k) {
		State *n = forkState(s);
		if (n->th[r[k]].irq) enterIrq(*n, r[k], false);
		n->cur = r[k]; n->th[r[k]].sched = true;
		n->inputs.push_back({"__sched", {}, 32, (u64)r[k], true});
		gWork.push_back(n);
	}
	if (s.th[r[0]].irq) enterIrq(s, r[0], false);
	s.cur = r[0]; s.th[r[0]].sched = true;
	s.inputs.push_back({"__sched", {}, 32, (u64)r[0], true});
}

static double asD(u64 v, unsigned w) { if (w == 32) { uint32_t t = v; float f; memcpy(&f, &t, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t t; memcpy(&t, &f, 4); return t; } u64 v; memcpy(&v, &d, 8); return v; }

static void memcpyOp(State &s, u64 dst, u64 src, u64 n) {
	if (n == 0) return;
	ORef *so = checkAccess(s, src, n, false);
	ORef sref = *so;  // keep alive
	ORef *d = checkAccess(s, dst, n, true);
	u64 doff = dst - (*d)->base, soff = src - sref->base;
	std::vector<uint8_t> tmp(sref->c.begin() + soff, sref->c.begin() + soff + n);
	std::vector<E> ts;
	if (!sref->s.empty()) ts.assign(sref->s.begin() + soff, sref->s.begin() + soff + n);
	sref.drop();
	Obj *o = writable(d);
	memcpy(&o->c[doff], tmp.data(), n);
	if (!ts.empty()) { if (o->s.empty()) o->s.assign(o->size, nullptr); std::copy(ts.begin(), ts.end(), o->s.begin() + doff); }
	else if (!o->s.empty()) std::fill(o->s.begin() + doff, o->s.begin() + doff + n, nullptr);
}
static void memsetOp(State &s, u64 dst, const Val &v, u64 n) {
	if (n == 0) return;
	ORef *d = checkAccess(s, dst, n, true);
	Obj *o = writable(d); u64 off = dst - o->base;
	if (!v.e) {
		memset(&o->c[off], (int)v.c, n);
		if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, nullptr);
	} else {
		if (o->s.empty()) o->s.assign(o->size, nullptr);
		std::fill(o->s.begin() + off, o->s.begin() + off + n, v.e);
	}
}

typedef std::function<Val(State &, DInst &, std::vector<Val> &)> Builtin;
static std::unordered_map<std::string, Builtin> gBuiltins;

static std::string uniqueName(State &s, const std::string &n) { return n; }

static E newSymVar(const std::string &n, unsigned w) { return mkVar(n, w); }

// Deterministic variable naming: reuse the k-th variable with the same name/width across paths
static std::map<std::pair<std::string, unsigned>, std::vector<E>> gVarPool;
static E pooledVar(State &s, const std::string &name, unsigned w) {
	std::string key = name + "/" + std::to_string(w);
	int k = s.nameCount[key]++;
	auto &v = gVarPool[{name, w}];
	while ((int)v.size() <= k) v.push_back(newSymVar(name, w));
	return v[k];
}

static void doAssert(State &s, const Val &c, unsigned w, const std::string &msg) {
	gAsserts++;
	if (!c.e) { if (!(c.c & maskw(w))) pathError(s, "assert", msg); return; }
	gAssertsSym++;
	E cond = w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, w)));
	if (isTrue(cond)) return;
	Model m;
	E neg = mkNot(cond);
	SatResult r = feasible(s, neg, m);
	if (r == SAT) {
		reportError(s, "assert", msg, m);
		// continue on the satisfying side, if any
		Model m2;
		if (feasible(s, cond, m2) != SAT) throw PathEnd();
		s.model = m2;
		addPC(s, cond);
	} else if (r == UNKNOWN) {
		gIncomplete.push_back("solver unknown on assertion: " + msg);
	}
}

static void setupBuiltins() {
	auto &B = gBuiltins;
	B["sym_u64"] = B["__sym_u64"] = [](State &s, DInst &d, std::vector<Val> &a) {
		std::string n = readCStr(s, a[0].c); E v = pooledVar(s, n, 64); s.inputs.push_back({n, {v}, 64, 0, false}); return EV(v); };
	auto mk = [](unsigned w) { return [w](State &s, DInst &d, std::vector<Val> &a) {
		std::string n = readCStr(s, a[0].c); E v = pooledVar(s, n, w); s.inputs.push_back({n, {v}, w, 0, false}); return EV(v); }; };
	// a variable that is not an input (defined by the assumptions that follow)
	B["__sym_fresh8"] = [](State &s, DInst &d, std::vector<Val> &a) { return EV(pooledVar(s, "fresh", 8)); };
	B["sym_u32"] = mk(32); B["sym_u16"] = mk(16); B["sym_u8"] = mk(8);
	B["sym_bool"] = [](State &s, DInst &d, std::vector<Val> &a) {
		std::string n = readCStr(s, a[0].c); E v = pooledVar(s, n, 1); s.inputs.push_back({n, {v}, 1, 0, false});
		return EV(d.width == 1 ? v : mkZExt(v, d.width)); };
	B["sym_mem"] = [](State &s, DInst &d, std::vector<Val> &a) {
		u64 p = a[0].c, n = concretize(s, a[1], 64); std::string nm = readCStr(s, a[2].c);
		ORef *o = checkAccess(s, p, n, true); Obj *ob = writable(o);
		Input in; in.name = nm; in.width = 0; in.isConc = false;
		for (u64 i = 0; i < n; ++i) { E v = pooledVar(s, nm, 8); in.bytes.push_back(v); storeTo(ob, p - ob->base + i, 1, EV(v), 8); }
		s.inputs.push_back(in);
		return CV(0); };
	// value in [lo, hi] (unsigned)
	B["sym_range"] = [](State &s, DInst &d, std::vector<Val> &a) {
		std::string n = readCStr(s, a[0].c); u64 lo = concretize(s, a[1], 64), hi = concretize(s, a[2], 64);
		E v = pooledVar(s, n, 64);
		E c = mkAndB(mkBin(K_ULE, mkConst(lo, 64), v), mkBin(K_ULE, v, mkConst(hi, 64)));
		Model m; if (feasible(s, c, m) != SAT) engineFail("sym_range infeasible");
		s.model = m; addPC(s, c);
		s.inputs.push_back({n, {v}, 64, 0, false});
		return EV(v); };
	// concrete choice in [0,n): forks
	B["sym_choice"] = [](State &s, DInst &d, std::vector<Val> &a) {
		std::string n = readCStr(s, a[0].c); u64 k = concretize(s, a[1], 64);
		if (k == 0 || k > 0xffff) engineFail("sym_choice: bad range");
		unsigned cw = k > 0xff ? 16 : 8;
		E v = pooledVar(s, "choice:" + n, cw);
		E lim = mkBin(K_ULT, v, mkConst(k, cw));
		if (k == 1) { s.inputs.push_back({n, {}, 32, 0, true}); return CV(0); }
		Model m; if (feasible(s, lim, m) != SAT) engineFail("sym_choice infeasible");
		s.model = m; addPC(s, lim);
		// enumerate remaining alternatives as forks that resume after the call
		u64 first = evalExpr(v, s.model);
		std::vector<u64> others;
		for (u64 i = 0; i < k; ++i) if (i != first) others.push_back(i);
		for (u64 i : others) {
			Model om; E eq = mkEq(v, mkConst(i, cw));
			if (checkSat(s.pc, eq, s.model, om) != SAT) continue;
			State *nst = forkState(s);
			nst->model = om; addPC(*nst, eq);
			nst->inputs.push_back({n, {}, 32, i, true});
			Frame &f = nst->th[nst->cur].frames.back();
			if (d.dest >= 0) f.regs[d.dest] = CV(i);
			f.pc++;
			gWork.push_back(nst);
		}
		addPC(s, mkEq(v, mkConst(first, cw)));
		s.inputs.push_back({n, {}, 32, first, true});
		return CV(first); };
	B["sym_assume"] = [](State &s, DInst &d, std::vector<Val> &a) {
		unsigned w = d.cases[0];
		if (!a[0].e) { if (!(a[0].c & maskw(w))) { gPruned++; throw PathEnd(); } return CV(0); }
		E cond = w == 1 ? a[0].e : mkNot(mkEq(a[0].e, mkConst(0, w)));
		Model m; SatResult r = feasible(s, cond, m);
		if (r != SAT) { gPruned++; throw PathEnd(); }
		s.model = m; addPC(s, cond); return CV(0); };
	B["__sym_assert"] = [](State &s, DInst &d, std::vector<Val> &a) { doAssert(s, a[0], d.cases[0], readCStr(s, a[1].c)); return CV(0); };
	B["__sym_fail"] = [](State &s, DInst &d, std::vector<Val> &a) -> Val { pathError(s, "assert", readCStr(s, a[0].c)); };
	B["sym_cover"] = [](State &s, DInst &d, std::vector<Val> &a) { gCovers[readCStr(s, a[0].c)]++; return CV(0); };
	B["sym_note"] = [](State &s, DInst &d, std::vector<Val> &a) { s.notes.push_back(readCStr(s, a[0].c)); return CV(0); };
	B["sym_note_int"] = [](State &s, DInst &d, std::vector<Val> &a) { Val v = a[1]; s.notes.push_back(readCStr(s, a[0].c) + "=" + (v.e ? std::to_string((long long)evalExpr(v.e, s.model)) + "(sym)" : std::to_string((long long)v.c))); return CV(0); };
	B["sym_print"] = [](State &s, DInst &d, std::vector<Val> &a) { fprintf(stderr, "[sym] %s %lld%s\n", readCStr(s, a[0].c).c_str(), a.size() > 1 ? (long long)(a[1].e ? evalExpr(a[1].e, s.model) : a[1].c) : 0, a.size() > 1 && a[1].e ? " (sym)" : ""); return CV(0); };
	B["sym_done"] = [](State &s, DInst &d, std::vector<Val> &a) -> Val { gPaths++; throw PathEnd(); };
	B["sym_concretize"] = [](State &s, DInst &d, std::vector<Val> &a) { return CV(concretize(s, a[0], 64)); };
	B["sym_is_symbolic"] = [](State &s, DInst &d, std::vector<Val> &a) { return CV(a[0].e != nullptr); };
	// Is it possible that x is true on this path?  (no fork)
	B["sym_may"] = [](State &s, DInst &d, std::vector<Val> &a) {
		unsigned w = d.cases[0];
		if (!a[0].e) return CV((a[0].c & maskw(w)) != 0);
		E cond = mkNot(mkEq(a[0].e, mkConst(0, w))); Model m; return CV(feasible(s, cond, m) == SAT); };
	B["sym_ite"] = [](State &s, DInst &d, std::vector<Val> &a) {
		unsigned w = d.cases[0];
		if (!a[0].e) return (a[0].c & maskw(w)) ? a[1] : a[2];
		E cond = mkNot(mkEq(a[0].e, mkConst(0, w)));
		return EV(mkIte(cond, toE(a[1], 64), toE(a[2], 64))); };
	B["sym_param"] = [](State &s, DInst &d, std::vector<Val> &a) {
		std::string n = readCStr(s, a[0].c); auto it = gParams.find(n);
		return it == gParams.end() ? a[1] : CV((u64)it->second); };
	B["sym_symbolic"] = [](State &s, DInst &d, std::vector<Val> &a) { return CV(1); };
	B["abort"] = [](State &s, DInst &d, std::vector<Val> &a) -> Val { pathError(s, "abort", "abort() called"); };
	B["__sym_malloc"] = [](State &s, DInst &d, std::vector<Val> &a) { u64 n = concretize(s, a[0], 64); if (n > (1ull << 28)) engineFail("huge malloc"); return CV(heapAlloc(s, n, concretize(s, a[1], 64), a[2].c)); };
	B["__sym_free"] = [](State &s, DInst &d, std::vector<Val> &a) {
		u64 p = concretize(s, a[0], 64); if (!p) return CV(0);
		ORef *o = findObj(s, p);
		if (!o || !(*o)->heap || (*o)->base != p) pathError(s, "memory", "invalid free");
		if ((*o)->freed) pathError(s, "memory", "double free");
		hbAccess(s, CV(p), std::min<u64>((*o)->size, 1024), true, true);
		Obj *f = new Obj(); f->rc = 0; f->base = (*o)->base; f->size = (*o)->size; f->freed = true; f->heap = true; f->ro = false; f->what = "freed";
		*o = ORef(f);
		return CV(0); };
	B["__sym_objsize"] = [](State &s, DInst &d, std::vector<Val> &a) {
		u64 p = concretize(s, a[0], 64); ORef *o = findObj(s, p);
		if (!o || !(*o)->heap || (*o)->base != p) pathError(s, "memory", "invalid realloc/usable_size pointer");
		if ((*o)->freed) pathError(s, "memory", "realloc after free");
		return CV((*o)->size); };
	B["sym_heap_live"] = [](State &s, DInst &d, std::vector<Val> &a) { u64 n = 0; for (auto &o : s.heap) if (!o->freed) n++; return CV(n); };
	B["__asan_poison_memory_region"] = [](State &s, DInst &d, std::vector<Val> &a) {
		u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); if (!n) return CV(0); ORef *o = findObj(s, p); if (!o) return CV(0);
		Obj *ob = writable(o); if (ob->poison.empty()) ob->poison.assign(ob->size, false);
		for (u64 i = 0; i < n && p - ob->base + i < ob->size; ++i) ob->poison[p - ob->base + i] = true; return CV(0); };
	B["__asan_unpoison_memory_region"] = [](State &s, DInst &d, std::vector<Val> &a) {
		u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); if (!n) return CV(0); ORef *o = findObj(s, p); if (!o) return CV(0);
		if ((*o)->poison.empty()) return CV(0);
		Obj *ob = writable(o); for (u64 i = 0; i < n && p - ob->base + i < ob->size; ++i) ob->poison[p - ob->base + i] = false; return CV(0); };
	// threads
	B["__sym_spawn"] = [](State &s, DInst &d, std::vector<Val> &a) {
		auto it = gCode.find(a[0].c); if (it == gCode.end()) engineFail("spawn: bad function");
		u64 tid = s.th.size();
		Thread t; t.stackTop = STACK_BASE + tid * STACK_STRIDE + 64; t.st = Thread::RUN; t.waitKey = 0; t.sched = false;
		s.th.push_back(std::move(t));
		pushFrame(s, s.th.back(), decode(it->second), {a[1]}, {64}, -1, nullptr);
		hbSpawn(s, tid);
		return CV(tid); };
	B["__sym_irq"] = [](State &s, DInst &d, std::vector<Val> &a) {
		auto it = gCode.find(a[0].c); if (it == gCode.end()) engineFail("irq: bad function");
		u64 tid = s.th.size();
		Thread t; t.stackTop = STACK_BASE + tid * STACK_STRIDE + 64; t.st = Thread::RUN; t.waitKey = 0; t.sched = false; t.irq = true;
		s.th.push_back(std::move(t));
		pushFrame(s, s.th.back(), decode(it->second), {a[1]}, {64}, -1, nullptr);
		hbSpawn(s, tid);
		return CV(tid); };
	B["__sym_notify1"] = [](State &s, DInst &d, std::vector<Val> &a) {
		std::vector<size_t> w;
		for (size_t i = 0; i < s.th.size(); ++i) if (s.th[i].st == Thread::WAIT && s.th[i].waitKey == a[0].c) w.push_back(i);
		if (w.empty()) return CV(0);
		s.inputs.push_back({"__sched", {}, 32, 0, true});
		for (size_t k = 1; k < w.size(); ++k) {
			State *n = forkState(s);
			n->inputs.back().conc = w[k];
			n->th[w[k]].st = Thread::RUN; n->th[w[k]].sched = false;
			n->th[n->cur].frames.back().pc++;
			gWork.push_back(n);
		}
		s.inputs.back().conc = w[0];
		s.th[w[0]].st = Thread::RUN; s.th[w[0]].sched = false;
		return CV(0); };
	B["__sym_acquire"] = [](State &s, DInst &d, std::vector<Val> &a) { hbAcquire(s, a[0].c); return CV(0); };
	B["__sym_release"] = [](State &s, DInst &d, std::vector<Val> &a) { hbRelease(s, a[0].c); return CV(0); };
	B["__sym_self"] = [](State &s, DInst &d, std::vector<Val> &a) { return CV(s.cur); };
	B["__sym_thread_done"] = [](State &s, DInst &d, std::vector<Val> &a) { return CV(s.th[a[0].c].st == Thread::DONE); };
	B["__sym_notify"] = [](State &s, DInst &d, std::vector<Val> &a) { for (auto &t : s.th) if (t.st == Thread::WAIT && t.waitKey == a[0].c) { t.st = Thread::RUN; t.sched = false; } return CV(0); };
}

static bool execInst(State &s);

static Val execIntrinsic(State &s, Frame &f, DInst &d, std::vector<Val> &a) {
	unsigned w = d.width;
	auto E_ = [&](int i) { return toE(a[i], d.cases[i]); };
	switch (d.intrin) {
	case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
	case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
	case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect:
		return CV(0);
	case Intrinsic::stacksave: return CV(0);
	case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: case Intrinsic::annotation: return a[0];
	case Intrinsic::is_constant: return CV(0);
	case Intrinsic::objectsize: return CV(a[1].c ? 0 : ~0ull);
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
		u64 n = concretize(s, a[2], d.cases[2]); u64 dst = concretize(s, a[0], 64), src = concretize(s, a[1], 64); hbAccess(s, CV(src), n, false); hbAccess(s, CV(dst), n, true); memcpyOp(s, dst, src, n); return CV(0); }
	case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = concretize(s, a[2], d.cases[2]); u64 dst = concretize(s, a[0], 64); hbAccess(s, CV(dst), n, true); memsetOp(s, dst, a[1], n); return CV(0); }
	case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: pathError(s, "trap", "trap executed");
	case Intrinsic::vastart: {
		Thread &t = s.th[s.cur];
		u64 n = f.varargs.size();
		u64 area = stackAlloc(s, t, n * 8 + 8, 16, "varargs");
		Frame &fr = t.frames.back();
		for (u64 i = 0; i < n; ++i) memWrite(s, CV(area + i * 8), fr.varargs[i].e ? EV(mkZExt(toE(fr.varargs[i], fr.varw[i]), 64)) : fr.varargs[i], 64);
		memWrite(s, a[0], CV(48), 32);
		memWrite(s, CV(a[0].c + 4), CV(176), 32);
		memWrite(s, CV(a[0].c + 8), CV(area), 64);
		memWrite(s, CV(a[0].c + 16), CV(0), 64);
		return CV(0);
	}
	case Intrinsic::vaend: return CV(0);
	case Intrinsic::vacopy: memcpyOp(s, a[0].c, a[1].c, 24); return CV(0);
	case Intrinsic::umax: { E c = mkBin(K_ULT, E_(0), E_(1)); return EV(mkIte(c, E_(1), E_(0))); }
	case Intrinsic::umin: { E c = mkBin(K_ULT, E_(0), E_(1)); return EV(mkIte(c, E_(0), E_(1))); }
	case Intrinsic::smax: { E c = mkBin(K_SLT, E_(0), E_(1)); return EV(mkIte(c, E_(1), E_(0))); }
	case Intrinsic::smin: { E c = mkBin(K_SLT, E_(0), E_(1)); return EV(mkIte(c, E_(0), E_(1))); }
	case Intrinsic::abs: { E c = mkBin(K_SLT, E_(0), mkConst(0, w)); return EV(mkIte(c, mkBin(K_SUB, mkConst(0, w), E_(0)), E_(0))); }
	case Intrinsic::bswap: { E e = E_(0), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } return EV(r); }
	case Intrinsic::bitreverse: { E e = E_(0), r = nullptr; for (unsigned i = 0; i < w; ++i) { E b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } return EV(r); }
	case Intrinsic::ctpop: { if (!a[0].e) return CV(__builtin_popcountll(a[0].c)); std::vector<E> b; for (unsigned i = 0; i < w; ++i) { E x = mkExtract(a[0].e, i, 1); if (!isFalse(x)) b.push_back(mkZExt(x, w)); }
		if (b.empty()) return CV(0);
		while (b.size() > 1) { std::vector<E> nb; for (size_t i = 0; i + 1 < b.size(); i += 2) nb.push_back(mkBin(K_ADD, b[i], b[i + 1])); if (b.size() & 1) nb.push_back(b.back()); b.swap(nb); }
		return EV(b[0]); }
	case Intrinsic::ctlz: { E e = E_(0); E r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); if (gSplitClz && !isConst(r)) return CV(concretize(s, EV(r), w)); return EV(r); }
	case Intrinsic::cttz: { E e = E_(0); E r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); return EV(r); }
	case Intrinsic::fshl: case Intrinsic::fshr: {
		E sh = mkBin(K_UREM, E_(2), mkConst(w, w)); E cc = mkZExt(mkConcat(E_(0), E_(1)), 2 * w);
		if (2 * w > 64 && isConst(cc)) { // concrete
			u64 x = a[0].c, y = a[1].c, n = sh->val; if (d.intrin == Intrinsic::fshl) return CV((n ? (x << n) | (y >> (w - n)) : x) & maskw(w)); return CV((n ? (y >> n) | (x << (w - n)) : y) & maskw(w)); }
		E n2 = mkZExt(sh, 2 * w);
		if (d.intrin == Intrinsic::fshl) return EV(mkExtract(mkBin(K_SHL, cc, n2), w, w)); return EV(mkExtract(mkBin(K_LSHR, cc, n2), 0, w)); }
	case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow:
	case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
		unsigned ow = d.cases[0];
		bool sg = d.intrin == Intrinsic::sadd_with_overflow || d.intrin == Intrinsic::ssub_with_overflow || d.intrin == Intrinsic::smul_with_overflow;
		Kind k = (d.intrin == Intrinsic::sadd_with_overflow || d.intrin == Intrinsic::uadd_with_overflow) ? K_ADD : (d.intrin == Intrinsic::smul_with_overflow || d.intrin == Intrinsic::umul_with_overflow) ? K_MUL : K_SUB;
		Val res, ov;
		if (!a[0].e && !a[1].e) {
			__int128 x = sg ? (__int128)sx(a[0].c, ow) : (__int128)(a[0].c & maskw(ow)), y = sg ? (__int128)sx(a[1].c, ow) : (__int128)(a[1].c & maskw(ow));
			unsigned __int128 r = k == K_ADD ? (unsigned __int128)x + y : k == K_SUB ? (unsigned __int128)x - y : (unsigned __int128)x * (unsigned __int128)y;
			u64 t = (u64)r & maskw(ow); res = CV(t);
			__int128 back = sg ? (__int128)sx(t, ow) : (__int128)t;
			ov = CV((unsigned __int128)back != r);
		} else {
			unsigned ew = k == K_MUL ? 2 * ow : ow + 1;
			E x = E_(0), y = E_(1);
			res = EV(mkBin(k, x, y));
			E rr = toE(res, ow);
			if (k == K_ADD && !sg) ov = EV(mkBin(K_ULT, rr, x));
			else if (k == K_SUB && !sg) ov = EV(mkBin(K_ULT, x, y));
			else if (k == K_MUL && !sg && (isConst(x) || isConst(y))) {
				E cst = isConst(x) ? x : y, o = isConst(x) ? y : x;
				ov = cst->val == 0 ? CV(0) : EV(mkBin(K_ULT, mkConst(maskw(ow) / cst->val, ow), o));
			} else if (k == K_MUL && sg && (isConst(x) || isConst(y)) && ow <= 64) {
				E cst = isConst(x) ? x : y, o = isConst(x) ? y : x;
				int64_t cv = sx(cst->val, ow); int64_t mx = (int64_t)(maskw(ow) >> 1), mn = -mx - 1;
				if (cv == 0 || cv == 1) ov = CV(0);
				else if (cv == -1) ov = EV(mkEq(o, mkConst((u64)mn, ow)));
				else { int64_t hi = cv > 0 ? mx / cv : mn / cv, lo = cv > 0 ? mn / cv : mx / cv;
					ov = EV(mkOrB(mkBin(K_SLT, mkConst((u64)hi, ow), o), mkBin(K_SLT, o, mkConst((u64)lo, ow)))); }
			} else {
				E xe = sg ? mkSExt(x, ew) : mkZExt(x, ew), ye = sg ? mkSExt(y, ew) : mkZExt(y, ew);
				if (ew > 64) { // avoid >64-bit constants with sign: split signed add/sub using sign logic
					if (k != K_MUL) {
						E sxn = mkExtract(x, ow - 1, 1), syn = mkExtract(y, ow - 1, 1), srn = mkExtract(rr, ow - 1, 1);
						E same = k == K_ADD ? mkEq(sxn, syn) : mkNot(mkEq(sxn, syn));
						ov = EV(mkAndB(same, mkNot(mkEq(srn, sxn))));
					} else {
						E re = mkBin(k, xe, ye);
						ov = EV(mkNot(mkEq(re, sg ? mkSExt(mkExtract(re, 0, ow), ew) : mkZExt(mkExtract(re, 0, ow), ew))));
					}
				} else {
					E re = mkBin(k, xe, ye);
					ov = EV(mkNot(mkEq(re, sg ? mkSExt(mkExtract(re, 0, ow), ew) : mkZExt(mkExtract(re, 0, ow), ew))));
				}
			}
		}
		Frame &fr = s.th[s.cur].frames.back();
		fr.regs[d.dest] = res; fr.regs[d.dest + 1] = ov;
		return res;
	}
	case Intrinsic::usub_sat: { E c = mkBin(K_ULT, E_(0), E_(1)); return EV(mkIte(c, mkConst(0, w), mkBin(K_SUB, E_(0), E_(1)))); }
	case Intrinsic::fabs: return CV(fromD(std::fabs(asD(a[0].c, w)), w));
	case Intrinsic::fmuladd: return CV(fromD(asD(a[0].c, w) * asD(a[1].c, w) + asD(a[2].c, w), w));
	case Intrinsic::floor: return CV(fromD(std::floor(asD(a[0].c, w)), w));
	case Intrinsic::ceil: return CV(fromD(std::ceil(asD(a[0].c, w)), w));
	default: {
		std::string n = d.callee->getName().str();
		if (n == "llvm.x86.sse2.pause") return CV(0);
		engineFail("intrinsic " + n);
	}
	}
}

static void doReturn(State &s, const std::vector<Val> &rv) {
	Thread &t = s.th[s.cur];
	Frame &f = t.frames.back();
	t.stack.resize(f.stackMark);
	t.stackTop = f.stackTop;
	int dest = f.retDest;
	t.frames.pop_back();
	if (t.frames.empty()) {
		if (s.cur == 0) { gPaths++; throw PathEnd(); }
		t.st = Thread::DONE;
		u64 key = 0xD0DE0000ull + s.cur;
		for (auto &o : s.th) if (o.st == Thread::WAIT && o.waitKey == key) { o.st = Thread::RUN; o.sched = false; }
		if (t.irq) {
			if (gRaces) { HB &h = hbOf(s); vjoin(h.th[0], h.th[s.cur]); }
			if (s.irqParent == 0) { s.irqParent = -1; s.cur = 0; s.th[0].sched = true; return; }
		}
		schedBlocked(s);
		return;
	}
	Frame &c = t.frames.back();
	if (dest >= 0) for (size_t i = 0; i < rv.size(); ++i) c.regs[dest + i] = rv[i];
	c.pc++;
}

static void callFunction(State &s, DInst &d, const Function *callee, std::vector<Val> &args) {
	Thread &t = s.th[s.cur];
	if (callee->isDeclaration()) {
		auto it = gBuiltins.find(callee->getName().str());
		if (it == gBuiltins.end()) engineFail("unmodelled external function " + callee->getName().str());
		size_t ti = s.cur;
		Val r = it->second(s, d, args);
		Frame &f = s.th[ti].frames.back();
		if (d.dest >= 0 && d.width) f.regs[d.dest] = r.e ? r : CV(r.c & maskw(d.width));
		f.pc++;
		return;
	}
	DFunc *df = decode(callee);
	std::vector<unsigned> ws;
	for (size_t i = 0; i < args.size(); ++i) ws.push_back(d.cases.empty() ? 64 : (unsigned)d.cases[i]);
	size_t mark = t.stack.size(); u64 top = t.stackTop;
	std::vector<Val> av = args;
	bool byval = false;
	for (size_t i = 0; i < args.size() && i < d.scale.size(); ++i) if (d.scale[i]) {
		byval = true;
		u64 src = concretize(s, args[i], 64);
		u64 n = stackAlloc(s, t, d.scale[i], 16, "byval");
		memcpyOp(s, n, src, d.scale[i]);
		av[i] = CV(n);
	}
	// flatten struct args is unsupported (first-class struct args do not occur with the C ABI here)
	pushFrame(s, s.th[s.cur], df, av, ws, d.dest, d.I);
	if (byval) { Frame &nf = s.th[s.cur].frames.back(); nf.stackMark = mark; nf.stackTop = top; }
}

static Kind icmpKind(int p, bool &swap, bool &neg) {
	swap = neg = false;
	switch (p) {
	case CmpInst::ICMP_EQ: return K_EQ;
	case CmpInst::ICMP_NE: neg = true; return K_EQ;
	case CmpInst::ICMP_ULT: return K_ULT;
	case CmpInst::ICMP_ULE: return K_ULE;
	case CmpInst::ICMP_UGT: swap = true; return K_ULT;
	case CmpInst::ICMP_UGE: swap = true; return K_ULE;
	case CmpInst::ICMP_SLT: return K_SLT;
	case CmpInst::ICMP_SLE: return K_SLE;
	case CmpInst::ICMP_SGT: swap = true; return K_SLT;
	case CmpInst::ICMP_SGE: swap = true; return K_SLE;
	}
	engineFail("icmp");
}

static u64 needConcFP(State &s, const Val &v) {
	if (v.e) { return concretize(s, v, v.e->width); }
	return v.c;
}

static void step(State &s) {
	Thread &t = s.th[s.cur];
	Frame &f = t.frames.back();
	DInst &d = f.f->blocks[f.block].insts[f.pc];
	s.insts++; gInsts++;
	switch (d.op) {
	case Instruction::Add: f.regs[d.dest] = binop(s, K_ADD, get(f, d.a), get(f, d.b), d.width); f.pc++; return;
	case Instruction::Sub: f.regs[d.dest] = binop(s, K_SUB, get(f, d.a), get(f, d.b), d.width); f.pc++; return;
	case Instruction::Mul: f.regs[d.dest] = binop(s, K_MUL, get(f, d.a), get(f, d.b), d.width); f.pc++; return;
	case Instruction::And: f.regs[d.dest] = binop(s, K_AND, get(f, d.a), get(f, d.b), d.width); f.pc++; return;
	case Instruction::Or: f.regs[d.dest] = binop(s, K_OR, get(f, d.a), get(f, d.b), d.width); f.pc++; return;
	case Instruction::Xor: f.regs[d.dest] = binop(s, K_XOR, get(f, d.a), get(f, d.b), d.width); f.pc++; return;
	case Instruction::Shl: f.regs[d.dest] = binop(s, K_SHL, get(f, d.a), get(f, d.b), d.width); f.pc++; return;
	case Instruction::LShr: f.regs[d.dest] = binop(s, K_LSHR, get(f, d.a), get(f, d.b), d.width); f.pc++; return;
	case Instruction::AShr: f.regs[d.dest] = binop(s, K_ASHR, get(f, d.a), get(f, d.b), d.width); f.pc++; return;
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
		Val b = get(f, d.b);
		if (!b.e) { if (!b.c) pathError(s, "memory", "division by zero"); }
		else {
			E z = mkEq(b.e, mkConst(0, d.width));
			Model m;
			if (feasible(s, z, m) == SAT) {
				reportError(s, "memory", "division by zero", m);
				Model m2; if (feasible(s, mkNot(z), m2) != SAT) throw PathEnd();
				s.model = m2; addPC(s, mkNot(z));
			}
		}
		Kind k = d.op == Instruction::UDiv ? K_UDIV : d.op == Instruction::SDiv ? K_SDIV : d.op == Instruction::URem ? K_UREM : K_SREM;
		f.regs[d.dest] = binop(s, k, get(f, d.a), b, d.width); f.pc++; return;
	}
	case Instruction::ICmp: {
		bool sw, ng; Kind k = icmpKind(d.pred, sw, ng);
		Val a = get(f, d.a), b = get(f, d.b);
		if (sw) std::swap(a, b);
		if (!a.e && !b.e) {
			u64 x = a.c, y = b.c; bool r;
			switch (k) { case K_EQ: r = x == y; break; case K_ULT: r = x < y; break; case K_ULE: r = x <= y; break;
			case K_SLT: r = sx(x, d.owidth) < sx(y, d.owidth); break; default: r = sx(x, d.owidth) <= sx(y, d.owidth); break; }
			f.regs[d.dest] = CV(r ^ ng);
		} else {
			E e = mkBin(k, toE(a, d.owidth), toE(b, d.owidth));
			f.regs[d.dest] = EV(ng ? mkNot(e) : e);
		}
		f.pc++; return;
	}
	case Instruction::FCmp: {
		double x = asD(needConcFP(s, get(f, d.a)), d.owidth), y = asD(needConcFP(s, get(f, d.b)), d.owidth);
		bool un = std::isnan(x) || std::isnan(y); bool r = false;
		switch (d.pred) {
		case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
		case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break;
		case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
		case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
		case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break;
		case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break;
		case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_TRUE: r = true; break;
		}
		f.regs[d.dest] = CV(r); f.pc++; return;
	}
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
		double x = asD(needConcFP(s, get(f, d.a)), d.width), y = asD(needConcFP(s, get(f, d.b)), d.width), r;
		if (d.width == 32) { float p = x, q = y, z = 0; switch (d.op) { case Instruction::FAdd: z = p + q; break; case Instruction::FSub: z = p - q; break; case Instruction::FMul: z = p * q; break; case Instruction::FDiv: z = p / q; break; default: z = std::fmod(p, q); } r = z; }
		else switch (d.op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); }
		f.regs[d.dest] = CV(fromD(r, d.width)); f.pc++; return;
	}
	case Instruction::FNeg: f.regs[d.dest] = CV(fromD(-asD(needConcFP(s, get(f, d.a)), d.width), d.width)); f.pc++; return;
	case Instruction::FPExt: case Instruction::FPTrunc: f.regs[d.dest] = CV(fromD(asD(needConcFP(s, get(f, d.a)), d.owidth), d.width)); f.pc++; return;
	case Instruction::SIToFP: f.regs[d.dest] = CV(fromD((double)sx(needConcFP(s, get(f, d.a)), d.owidth), d.width)); f.pc++; return;
	case Instruction::UIToFP: f.regs[d.dest] = CV(fromD((double)(needConcFP(s, get(f, d.a)) & maskw(d.owidth)), d.width)); f.pc++; return;
	case Instruction::FPToSI: f.regs[d.dest] = CV((u64)(int64_t)asD(needConcFP(s, get(f, d.a)), d.owidth) & maskw(d.width)); f.pc++; return;
	case Instruction::FPToUI: f.regs[d.dest] = CV((u64)asD(needConcFP(s, get(f, d.a)), d.owidth) & maskw(d.width)); f.pc++; return;
	case Instruction::Trunc: { Val a = get(f, d.a); f.regs[d.dest] = a.e ? EV(mkExtract(a.e, 0, d.width)) : CV(a.c & maskw(d.width)); f.pc++; return; }
	case Instruction::ZExt: { Val a = get(f, d.a); f.regs[d.dest] = a.e ? EV(mkZExt(a.e, d.width)) : a; f.pc++; return; }
	case Instruction::SExt: { Val a = get(f, d.a); f.regs[d.dest] = a.e ? EV(mkSExt(a.e, d.width)) : CV((u64)sx(a.c, d.owidth) & maskw(d.width)); f.pc++; return; }
	case Instruction::PtrToInt: case Instruction::IntToPtr: {
		Val a = get(f, d.a);
		if (d.width < d.owidth) a = a.e ? EV(mkExtract(a.e, 0, d.width)) : CV(a.c & maskw(d.width));
		else if (a.e && d.width > d.owidth) a = EV(mkZExt(a.e, d.width));
		f.regs[d.dest] = a; f.pc++; return;
	}
	case Instruction::BitCast: case Instruction::Freeze: f.regs[d.dest] = get(f, d.a); f.pc++; return;
	case Instruction::GetElementPtr: {
		Val r = get(f, d.a);
		if (d.extra) r = binop(s, K_ADD, r, CV(d.extra), 64);
		for (size_t i = 0; i < d.ops.size(); ++i) {
			Val ix = get(f, d.ops[i]); unsigned iw = d.cases[i];
			if (!ix.e) ix = CV((u64)sx(ix.c, iw) * d.scale[i]);
			else { E e = iw < 64 ? mkSExt(ix.e, 64) : ix.e; ix = EV(mkBin(K_MUL, e, mkConst(d.scale[i], 64))); }
			r = binop(s, K_ADD, r, ix, 64);
		}
		f.regs[d.dest] = r; f.pc++; return;
	}
	case Instruction::Alloca: {
		u64 n = concretize(s, get(f, d.a), d.owidth);
		if (n * d.extra > (1ull << 26)) pathError(s, "memory", "huge stack allocation");
		u64 p = stackAlloc(s, t, n * d.extra, d.pred, "alloca");
		f.regs[d.dest] = CV(p); f.pc++; return;
	}
	case Instruction::Load: {
		if (s.th.size() > 1 && cast<LoadInst>(d.I)->isAtomic()) { if (!schedPoint(s)) return; hbAtomic(s, get(f, d.a), cast<LoadInst>(d.I)->getOrdering(), true, false); }
		else if (gRaces) hbAccess(s, get(f, d.a), bytesOf(d.width), false);
		Val v = memRead(s, get(f, d.a), d.width);
		f.regs[d.dest] = v; f.pc++; return;
	}
	case Instruction::Store: {
		if (s.th.size() > 1 && cast<StoreInst>(d.I)->isAtomic()) { if (!schedPoint(s)) return; hbAtomic(s, get(f, d.a), cast<StoreInst>(d.I)->getOrdering(), false, true); }
		else if (gRaces) hbAccess(s, get(f, d.a), bytesOf(d.owidth), true);
		memWrite(s, get(f, d.a), get(f, d.b), d.owidth); f.pc++; return;
	}
	case 10000: engineFail("aggregate store");
	case 10001: { // inline asm: treat as a barrier
		f.pc++; return; }
	case Instruction::Fence: hbFence(s, cast<FenceInst>(d.I)->getOrdering()); f.pc++; return;
	case Instruction::AtomicCmpXchg: {
		if (s.th.size() > 1 && !schedPoint(s)) return;
		Val addr = get(f, d.a); Val cur = memRead(s, addr, d.owidth); Val exp = get(f, d.b), nw = get(f, d.c);
		Val eq = (!cur.e && !exp.e) ? CV(cur.c == exp.c) : EV(mkEq(toE(cur, d.owidth), toE(exp, d.owidth)));
		if (gRaces) {
			auto *cx = cast<AtomicCmpXchgInst>(d.I);
			bool ok = eq.e ? true : eq.c;
			hbAtomic(s, addr, ok ? cx->getSuccessOrdering() : cx->getFailureOrdering(), true, ok);
		}
		if (!eq.e) { if (eq.c) memWrite(s, addr, nw, d.owidth); }
		else memWrite(s, addr, EV(mkIte(eq.e, toE(nw, d.owidth), toE(cur, d.owidth))), d.owidth);
		f.regs[d.dest] = cur; f.regs[d.dest + 1] = eq; f.pc++; return;
	}
	case Instruction::AtomicRMW: {
		if (s.th.size() > 1 && !schedPoint(s)) return;
		Val addr = get(f, d.a); Val cur = memRead(s, addr, d.owidth); Val v = get(f, d.b); Val r;
		switch (d.pred) {
		case AtomicRMWInst::Xchg: r = v; break;
		case AtomicRMWInst::Add: r = binop(s, K_ADD, cur, v, d.owidth); break;
		case AtomicRMWInst::Sub: r = binop(s, K_SUB, cur, v, d.owidth); break;
		case AtomicRMWInst::And: r = binop(s, K_AND, cur, v, d.owidth); break;
		case AtomicRMWInst::Or: r = binop(s, K_OR, cur, v, d.owidth); break;
		case AtomicRMWInst::Xor: r = binop(s, K_XOR, cur, v, d.owidth); break;
		default: engineFail("atomicrmw");
		}
		hbAtomic(s, addr, cast<AtomicRMWInst>(d.I)->getOrdering(), true, true);
		memWrite(s, addr, r, d.owidth); f.regs[d.dest] = cur; f.pc++; return;
	}
	case Instruction::Select: {
		Val c = get(f, d.a);
		for (unsigned k = 0; k < d.extra; ++k) {
			Val x = d.b.slot >= 0 ? f.regs[d.b.slot + k] : CV(d.b.c), y = d.c.slot >= 0 ? f.regs[d.c.slot + k] : CV(d.c.c);
			if (!c.e) f.regs[d.dest + k] = c.c ? x : y;
			else f.regs[d.dest + k] = EV(mkIte(c.e, toE(x, d.width), toE(y, d.width)));
		}
		f.pc++; return;
	}
	case Instruction::ExtractValue: for (int k = 0; k < d.pred; ++k) f.regs[d.dest + k] = d.a.slot >= 0 ? f.regs[d.a.slot + d.extra + k] : CV(0); f.pc++; return;
	case Instruction::InsertValue: {
		for (unsigned k = 0; k < d.owidth; ++k) f.regs[d.dest + k] = d.a.slot >= 0 ? f.regs[d.a.slot + k] : CV(0);
		for (int k = 0; k < d.pred; ++k) f.regs[d.dest + d.extra + k] = d.b.slot >= 0 ? f.regs[d.b.slot + k] : CV(d.b.c);
		f.pc++; return;
	}
	case Instruction::Br: {
		if (!d.extra) { takeEdge(f, d.edges[0]); return; }
		Val c = get(f, d.a);
		bool side;
		if (!c.e) side = c.c & 1;
		else side = branchOn(s, c.e, [&](State &n, bool v) { takeEdge(n.th[n.cur].frames.back(), d.edges[v ? 0 : 1]); });
		takeEdge(s.th[s.cur].frames.back(), d.edges[side ? 0 : 1]);
		return;
	}
	case Instruction::Switch: {
		Val c = get(f, d.a);
		if (c.e) c = EV(simp(s, c.e));
		if (!c.e) {
			for (size_t i = 0; i < d.cases.size(); ++i) if (d.cases[i] == c.c) { takeEdge(f, d.edges[i + 1]); return; }
			takeEdge(f, d.edges[0]); return;
		}
		// group by target
		std::map<int, std::vector<size_t>> groups;
		E def = mkConst(1, 1);
		std::vector<std::pair<E, size_t>> alts;
		for (size_t i = 0; i < d.cases.size(); ++i) {
			E eq = mkEq(c.e, mkConst(d.cases[i], d.owidth));
			def = mkAndB(def, mkNot(eq));
			// merge with an earlier alternative that has an identical edge
			bool merged = false;
			for (auto &al : alts) {
				const Edge &e1 = d.edges[al.second], &e2 = d.edges[i + 1];
				if (e1.target == e2.target && e1.moves.empty() && e2.moves.empty()) { al.first = mkOrB(al.first, eq); merged = true; break; }
			}
			if (!merged) alts.push_back({eq, i + 1});
		}
		{
			bool merged = false;
			for (auto &al : alts) {
				const Edge &e1 = d.edges[al.second], &e2 = d.edges[0];
				if (e1.target == e2.target && e1.moves.empty() && e2.moves.empty()) { al.first = mkOrB(al.first, def); merged = true; break; }
			}
			if (!merged) alts.push_back({def, 0});
		}
		int mine = -1;
		for (size_t i = 0; i < alts.size(); ++i) {
			if (mine < 0 && evalExpr(alts[i].first, s.model)) { mine = i; continue; }
			Model m;
			SatResult r = checkSat(s.pc, alts[i].first, s.model, m);
			if (r == UNKNOWN) gUnknown = true;
			if (r == SAT) {
				State *n = forkState(s);
				addPC(*n, alts[i].first); n->model = m;
				takeEdge(n->th[n->cur].frames.back(), d.edges[alts[i].second]);
				gWork.push_back(n);
			}
		}
		if (mine < 0) engineFail("switch: model satisfies no case");
		addPC(s, alts[mine].first);
		takeEdge(s.th[s.cur].frames.back(), d.edges[alts[mine].second]);
		return;
	}
	case Instruction::Ret: {
		std::vector<Val> rv;
		for (u64 k = 0; k < d.extra; ++k) rv.push_back(d.a.slot >= 0 ? f.regs[d.a.slot + k] : CV(d.a.slot == -1 ? d.a.c : 0));
		doReturn(s, rv); return;
	}
	case Instruction::Unreachable: pathError(s, "unreachable", "unreachable code executed");
	case Instruction::Call: {
		std::vector<Val> args;
		for (auto &o : d.ops) args.push_back(get(f, o));
		if (d.intrin) {
			Val r = execIntrinsic(s, f, d, args);
			Frame &fr = s.th[s.cur].frames.back();
			if (d.dest >= 0 && d.extra == 1) fr.regs[d.dest] = r;
			fr.pc++; return;
		}
		const Function *callee = d.callee;
		if (!callee) {
			u64 a = concretize(s, get(f, d.a), 64);
			auto it = gCode.find(a);
			if (it == gCode.end()) pathError(s, "memory", "call through bad function pointer");
			callee = it->second;
		}
		StringRef nm = callee->getName();
		if (callee->isDeclaration()) {
			if (nm == "__sym_yield") { if (s.th.size() > 1) schedPoint(s); s.th[s.cur].frames.back().pc++; return; }
			if (nm == "__sym_wait_on") {
				Thread &me = s.th[s.cur];
				me.frames.back().pc++;
				me.st = Thread::WAIT; me.waitKey = args[0].c; me.sched = false;
				schedBlocked(s); return;
			}
			if (nm == "__sym_join") {
				u64 tid = args[0].c;
				if (s.th[tid].st == Thread::DONE) { hbJoin(s, tid); s.th[s.cur].frames.back().pc++; return; }
				Thread &me = s.th[s.cur]; me.st = Thread::WAIT; me.waitKey = 0xD0DE0000ull + tid; me.sched = false;
				schedBlocked(s); return;
			}
			if (nm == "__sym_fork") {
				s.forks.push_back(std::make_shared<State>(s));
				Frame &fr = s.th[s.cur].frames.back();
				if (d.dest >= 0) fr.regs[d.dest] = CV(0);
				fr.pc++; return;
			}
			if (nm == "__sym_fork_end") {
				// End the child: resume the parent with its own memory, except for the listed {address, size} pairs
				if (s.forks.empty()) engineFail("fork_end without a fork");
				u64 pid = concretize(s, args[0], 64), list = concretize(s, args[1], 64);
				std::vector<std::pair<u64, Val>> keep;
				for (;; list += 16) {
					u64 p = memRead(s, CV(list), 64).c, n = memRead(s, CV(list + 8), 64).c;
					if (!p) break;
					for (u64 i = 0; i < n; ++i) keep.push_back({p + i, memRead(s, CV(p + i), 8)});
				}
				std::shared_ptr<State> par = s.forks.back();
				s.th = par->th; s.cur = par->cur; s.globs = par->globs; s.heap = par->heap; s.heapTop = par->heapTop; s.forks = par->forks;
				for (auto &kv : keep) memWrite(s, CV(kv.first), kv.second, 8);
				Frame &fr = s.th[s.cur].frames.back();
				DInst &fd = fr.f->blocks[fr.block].insts[fr.pc];
				if (fd.dest >= 0) fr.regs[fd.dest] = CV(pid & maskw(fd.width));
				fr.pc++; return;
			}
			if (nm == "exit" || nm == "_exit" || nm == "_Exit" || nm == "__sym_exit") { gPaths++; throw PathEnd(); }
		}
		callFunction(s, d, callee, args);
		return;
	}
	default: {
		std::string str; raw_string_ostream os(str); d.I->print(os);
		engineFail("unsupported instruction " + os.str());
	}
	}
}

static void writeResult(double wall) {
	int id = gSh->seq.fetch_add(1);
	std::string p = gOutDir + "/part" + std::to_string(id) + ".json";
	FILE *f = fopen(p.c_str(), "w");
	fprintf(f, "{\"paths\":%llu,\"forks\":%llu,\"insts\":%llu,\"asserts\":%llu,\"asserts_sym\":%llu,\"pruned\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"timeout\":%d,\"unknown_seen\":%d,\"killed\":%llu,\"minisat\":%llu,\"z3\":%llu,\"crosschecked\":%llu,\"merged\":%llu,\n\"covers\":{",
		(unsigned long long)gPaths, (unsigned long long)gForks, (unsigned long long)gInsts, (unsigned long long)gAsserts, (unsigned long long)gAssertsSym, (unsigned long long)gPruned,
		(unsigned long long)gS.queries, (unsigned long long)gS.cacheHits, (unsigned long long)gS.modelHits, (unsigned long long)gS.sat, (unsigned long long)gS.unsat, (unsigned long long)gS.unknown, gS.time, gS.maxTime, wall, gTimeout, gUnknown, (unsigned long long)gKilled, (unsigned long long)(gS.sat_minisat + gS.unsat_minisat), (unsigned long long)gS.z3_queries, (unsigned long long)gS.crosschecked, (unsigned long long)gMerged);
	bool first = true;
	for (auto &kv : gCovers) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEsc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
	fprintf(f, "},\n\"functions\":[");
	first = true;
	for (auto &n : gCovered) { fprintf(f, "%s\"%s\"", first ? "" : ",", jsonEsc(n).c_str()); first = false; }
	fprintf(f, "],\n\"incomplete\":[");
	first = true;
	for (auto &n : gIncomplete) { fprintf(f, "%s\"%s\"", first ? "" : ",", jsonEsc(n).c_str()); first = false; }
	fprintf(f, "]}\n");
	fclose(f);
}

static void resetCounters() {
	gMerged = gPaths = gForks = gInsts = gAsserts = gAssertsSym = gPruned = gKilled = 0; gS = SolverStats(); gCovers.clear(); gIncomplete.clear(); gUnknown = false; gErrSeen.clear();
}

static u64 rssMB() { FILE *f = fopen("/proc/self/statm", "r"); u64 a = 0, b = 0; if (f) { if (fscanf(f, "%llu %llu", (unsigned long long *)&a, (unsigned long long *)&b) != 2) b = 0; fclose(f); } return b * 4096 / 1048576; }

static bool gChild = false;
static bool maybeSplit(State *cur) {   // true: we are the child, drop the current state
	if (gWork.size() < 2 || gSh->tokens.load() <= 0) return false;
	int t = gSh->tokens.load();
	while (t > 0) { if (gSh->tokens.compare_exchange_weak(t, t - 1)) break; }
	if (t <= 0) return false;
	gSh->live.fetch_add(1);
	fflush(nullptr);
	pid_t p = fork();
	if (p < 0) { gSh->live.fetch_sub(1); gSh->tokens.fetch_add(1); return false; }
	// alternate states between the two processes
	std::vector<State *> a, b;
	for (size_t i = 0; i < gWork.size(); ++i) (i % 2 ? a : b).push_back(gWork[i]);
	if (p == 0) {
		gChild = true; resetCounters();
		gWork = b; // leak the rest
		return true;
	}
	gWork = a;
	return false;
}

static State *gCurState;
static size_t dagSize(E e, std::set<E> &seen) { if (!e || !seen.insert(e).second) return 0; return 1 + dagSize(e->a, seen) + dagSize(e->b, seen) + dagSize(e->c, seen); }
static std::string show(E e, int d) {
	if (isConst(e)) return std::to_string(e->val) + ":" + std::to_string(e->width);
	if (e->kind == K_VAR) return gVars[e->val].name + std::to_string(e->val);
	if (!d) return "..";
	static const char *n[] = {"c", "v", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "cat", "ext", "zx", "sx"};
	std::string r = "(" + std::string(n[e->kind]) + (e->kind == K_EXTRACT ? std::to_string(e->val) : "") + ":" + std::to_string(e->width);
	if (e->a) r += " " + show(e->a, d - 1); if (e->b) r += " " + show(e->b, d - 1); if (e->c) r += " " + show(e->c, d - 1);
	return r + ")";
}
static void qlog(double dt, E c, SatResult r) {
	std::set<E> seen; size_t n = dagSize(c, seen), m = 0;
	if (gCurState) for (auto x : gCurState->pc) m += dagSize(x, seen);
	fprintf(stderr, "Q %.3f %d cond=%zu pc=%zu/%zu %s :: %s\n", dt, (int)r, n, m, gCurState ? gCurState->pc.size() : 0, gCurState ? where(*gCurState).substr(0, 90).c_str() : "", show(c, 6).substr(0, 300).c_str());
}

// Redirect libc names to the models: X, X64 and __isoc23_X become mdl_X when
// that exists (or X, when only X exists).
static int redirect(const char *in, const char *out) {
	LLVMContext C; SMDiagnostic err;
	std::unique_ptr<Module> M = parseIRFile(in, err, C);
	if (!M) { err.print("bsym", errs()); return 3; }
	std::vector<GlobalValue *> gvs;
	for (auto &F : *M) gvs.push_back(&F);
	for (auto &G : M->globals()) gvs.push_back(&G);
	for (auto *g : gvs) {
		std::string n = g->getName().str();
		if (n.compare(0, 4, "mdl_") == 0 || n.compare(0, 5, "llvm.") == 0) continue;
		std::vector<std::string> cand = {"mdl_" + n};
		if (g->isDeclaration()) {
			std::string b = n;
			if (b.compare(0, 9, "__isoc23_") == 0) b = b.substr(9);
			if (b.size() > 2 && b.substr(b.size() - 2) == "64") cand.push_back("mdl_" + b.substr(0, b.size() - 2)), cand.push_back(b.substr(0, b.size() - 2));
			if (b != n) cand.push_back("mdl_" + b), cand.push_back(b);
		}
		for (auto &c : cand) {
			GlobalValue *t = M->getNamedValue(c);
			if (t && t != g && !t->isDeclaration()) { g->replaceAllUsesWith(t); break; }
		}
	}
	std::error_code ec; raw_fd_ostream os(out, ec);
	if (ec) return 3;
	WriteBitcodeToFile(*M, os);
	return 0;
}

int main(int argc, char **argv) {
	if (argc == 4 && !strcmp(argv[1], "--redirect")) return redirect(argv[2], argv[3]);
	std::string bc, entry = "harness";
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(argv[++i]); };
		if (a == "--entry") entry = val();
		else if (a == "--out") gOutDir = val();
		else if (a == "--time") gMaxTime = atof(val().c_str());
		else if (a == "--max-inst") gMaxInst = atoll(val().c_str());
		else if (a == "--errors") gMaxErrors = atoi(val().c_str());
		else if (a == "--workers") gWorkers = atoi(val().c_str());
		else if (a == "--preempt") gPreempt = atoi(val().c_str());
		else if (a == "--mem") gMaxMemMB = atoll(val().c_str());
		else if (a == "--solver-timeout") gSolverTimeoutMs = atoi(val().c_str());
		else if (a == "--uninit-sym") gUninitSym = true;
		else if (a == "--split-clz") gSplitClz = true;
		else if (a == "--trace") gTrace = true;
		else if (a == "--races") gRaces = true;
		else if (a == "--dedup") gDedup = true;
		else if (a == "--qlog") gQueryLog = qlog;
		else if (a == "-p") { std::string kv = val(); size_t e = kv.find('='); gParams[kv.substr(0, e)] = atoll(kv.c_str() + e + 1); }
		else bc = a;
	}
	gStart = std::chrono::steady_clock::now();
	gSh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	gSh->tokens = gWorkers - 1; gSh->stop = 0; gSh->live = 0; gSh->seq = 0; gSh->errs = 0;
	LLVMContext C; SMDiagnostic err;
	std::unique_ptr<Module> M = parseIRFile(bc, err, C);
	if (!M) { err.print("bsym", errs()); return 3; }
	DL = &M->getDataLayout();
	int rc = 0;
	try {
		setupBuiltins();
		u64 ca = CODE_BASE;
		for (auto &F : *M) { gCodeAddr[&F] = ca; gCode[ca] = &F; ca += 16; }
		u64 ga = GLOB_BASE;
		for (auto &G : M->globals()) {
			u64 sz = DL->getTypeAllocSize(G.getValueType());
			u64 al = G.getAlign() ? G.getAlign()->value() : 16; if (al < 16) al = 16;
			ga = (ga + al - 1) / al * al;
			gGlobAddr[&G] = ga; ga += sz + 32;
		}
		State *s0 = new State();
		s0->cur = 0; s0->heapTop = HEAP_BASE; s0->insts = 0; s0->preempts = 0; s0->depth = 0;
		for (auto &G : M->globals()) {
			u64 sz = DL->getTypeAllocSize(G.getValueType());
			Obj *o = newObj(gGlobAddr[&G], sz, "global");
			std::fill(o->c.begin(), o->c.end(), 0);
			if (G.hasInitializer()) { if (G.getName() != "llvm.global_ctors" && G.getName() != "llvm.used" && G.getName() != "llvm.compiler.used") writeConst(o->c, 0, G.getInitializer()); }
			else if (!G.use_empty()) engineFail("external global " + G.getName().str());
			if (G.isConstant()) { o->ro = true; gRoObjs.push_back(ORef(o)); }
			else s0->globs.push_back(ORef(o));
		}
		Function *ef = M->getFunction(entry);
		if (!ef || ef->isDeclaration()) engineFail("no entry function " + entry);
		Thread t; t.stackTop = STACK_BASE + 64; t.st = Thread::RUN; t.sched = false; t.waitKey = 0;
		s0->th.push_back(std::move(t));
		pushFrame(*s0, s0->th[0], decode(ef), {}, {}, -1, nullptr);
		gWork.push_back(s0);
		u64 cnt = 0;
		while (!gWork.empty()) {
			State *s = gWork.back(); gWork.pop_back(); gCurState = s;
			size_t tickInst = 0;
			try {
				while (true) {
					step(*s);
					if (s->insts > gMaxInst) {
						// a thread that spins while others could run may only be starved by this schedule
						bool fair = true;
						for (size_t i = 0; i < s->th.size(); ++i) if ((int)i != s->cur && s->th[i].st == Thread::RUN && !s->th[s->cur].irq) fair = false;
						if (!fair) engineFail("unfair schedule");
						pathError(*s, "hang", "instruction limit exceeded");
					}
					if ((++tickInst & 0x3fff) == 0 || (++cnt & 0x3ff) == 0) {
						if (now() > gMaxTime) { gTimeout = true; gSh->stop = 2; }
						if (rssMB() > gMaxMemMB) { gIncomplete.push_back("memory limit"); gTimeout = true; gSh->stop = 2; }
						if (gSh->stop.load()) break;
						if (gWorkers > 1 && maybeSplit(s)) break;
					}
				}
			} catch (PathEnd &) {
			} catch (EngineErr &e) {
				if (e.msg == "unreachable") {}
				else reportError(*s, "model", e.msg, s->model);
			}
			delete s;
			if ((++cnt & 0xff) == 0) {
				if (now() > gMaxTime) { gTimeout = true; gSh->stop = 2; }
				if (rssMB() > gMaxMemMB) { gIncomplete.push_back("memory limit"); gTimeout = true; gSh->stop = 2; }
			}
			if (gWorkers > 1 && !gSh->stop.load()) maybeSplit(nullptr);
			if (gSh->stop.load()) break;
		}
		if (!gWork.empty()) gKilled += gWork.size();
		if (gSh->stop.load() == 2) gTimeout = true;
	} catch (EngineErr &e) {
		fprintf(stderr, "engine error: %s\n", e.msg.c_str());
		FILE *o = gErrFile();
		fprintf(o, "{\"kind\":\"model\",\"msg\":\"%s\",\"where\":\"startup\",\"inputs\":\"\",\"notes\":\"\"}\n", jsonEsc(e.msg).c_str());
		fflush(o);
		rc = 3;
	}
	writeResult(now());
	fflush(nullptr);
	if (gChild) { gSh->tokens.fetch_add(1); gSh->live.fetch_sub(1); while (waitpid(-1, nullptr, 0) > 0) {} _exit(rc); }
	while (waitpid(-1, nullptr, 0) > 0) {}
	_exit(rc);
}
