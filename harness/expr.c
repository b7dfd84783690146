// Operators, precedence, short-circuiting, implicit -print, -prune, -quit,
// -exit, -limit and -exclude: whole runs against a reference evaluator that is
// written from the documentation.
#include "common.h"

enum { TRUE_, FALSE_, PRINTF, NAMEX, TYPED, PRUNE, QUIT, EXIT, LIMIT, EXCLUDE, NOHIDDEN, HIDDEN, PRINT, NEWLINE };
enum { T_LEAF, T_NOT, T_AND, T_OR, T_COMMA, T_OPEN, T_CLOSE };
struct tok { int k, leaf, id; };
static struct tok tk[32];
static int ntk;
static const char *av[64];
static int ac;
static void add(const char *s) { av[ac++] = s; }
static void tok(int k) { tk[ntk].k = k; ntk++; }
static int nleaf, nlimit;
static bool haveact;
static int exitcode = -1, limit;

static void leaf(const int *set, int n) {
	static const char *fmts[] = {"a%f;", "b%f;", "c%f;", "d%f;", "e%f;"};
	int l = set[sym_choice("leaf", n)];
	int id = nleaf++;
	tk[ntk] = (struct tok){T_LEAF, l, id};
	ntk++;
	switch (l) {
	case TRUE_: add("-true"); break;
	case FALSE_: add("-false"); break;
	case PRINTF: add("-printf"); add(fmts[id]); haveact = true; break;
	case NAMEX: add("-name"); add("x"); break;
	case TYPED: add("-type"); add("d"); break;
	case PRUNE: add("-prune"); break;
	case QUIT: add("-quit"); break;
	case EXIT: add("-exit"); add("3"); haveact = true; break;
	case LIMIT: sym_assume(nlimit == 0); nlimit++; add("-limit"); add("2"); break;
	case EXCLUDE: add("-exclude"); add("-name"); add("x"); break;
	case NOHIDDEN: add("-nohidden"); break;
	case HIDDEN: add("-hidden"); break;
	case PRINT: add("-print"); haveact = true; break;
	}
}

// reference
static char ref[512];
static int nref;
static void out(const char *s) { while (*s) ref[nref++] = *s++; }
struct fl { const char *path, *name; bool dir, hidden; };
static struct fl *cur;
static bool quit, pruned;
static int pos, status;

static bool eleaf(struct tok *t) {
	char b[3] = {"abcde"[t->id], 0, 0};
	switch (t->leaf) {
	case TRUE_: case EXCLUDE: case NOHIDDEN: return true;
	case FALSE_: return false;
	case PRINTF: out(b); out(cur->name); out(";"); return true;
	case PRINT: out(cur->path); out("\n"); return true;
	case NAMEX: return strcmp(cur->name, "x") == 0;
	case TYPED: return cur->dir;
	case HIDDEN: return cur->hidden;
	case PRUNE: pruned = true; return true;
	case QUIT: quit = true; return true;
	case EXIT: quit = true; status = 3; return true;
	case LIMIT: if (++limit >= 2) quit = true; return true;
	}
	return false;
}
static bool ecomma(bool run);
static bool efactor(bool run) {
	struct tok *t = &tk[pos++];
	if (t->k == T_NOT) return !efactor(run);
	if (t->k == T_OPEN) { bool r = ecomma(run); pos++; return r; }
	return run && !quit ? eleaf(t) : false;
}
static bool eterm(bool run) {
	bool r = efactor(run);
	while (pos < ntk && tk[pos].k != T_OR && tk[pos].k != T_COMMA && tk[pos].k != T_CLOSE) {
		if (tk[pos].k == T_AND) pos++;
		bool rhs = efactor(run && r && !quit);
		r = r && rhs;
	}
	return r;
}
static bool eclause(bool run) {
	bool r = eterm(run);
	while (pos < ntk && tk[pos].k == T_OR) {
		pos++;
		bool rhs = eterm(run && !r && !quit);
		r = r || rhs;
	}
	return r;
}
static bool ecomma(bool run) {
	bool r = eclause(run);
	while (pos < ntk && tk[pos].k == T_COMMA) { pos++; r = eclause(run && !quit); }
	return r;
}

void harness(void) {
	world();
	struct mnode *d = mfs_mkdir(mfs_cwd, "d");
	mfs_mkdir(d, "x");
	mfs_mkfile(d, ".h", "");
	mfs_mkfile(d->ent[0].node, "z", "");
	static struct fl files[] = {{"d", "d", true}, {"d/x", "x", true}, {"d/.h", ".h", false, true}, {"d/x/z", "z", false}};
	static const int sets[][6] = {{TRUE_, FALSE_, PRINTF, NAMEX}, {PRINTF, TYPED, PRUNE, QUIT}, {PRINTF, NAMEX, EXIT, LIMIT}, {PRINTF, EXCLUDE, NOHIDDEN, HIDDEN}, {PRINT, FALSE_, PRUNE, NAMEX}, {QUIT, PRINT, TRUE_, NAMEX}};
	const int *set = sets[sym_param("set", 0)];
	int n = sym_param("n", 3), neg = sym_param("neg", 1), ops = sym_param("ops", 3);
	static const char *O[] = {"-O0", "-O1", "-O2", "-O3", "-O4"};
	add("bfs");
	add("-j1");
	add(O[sym_param("level", 3)]);
	add("d");
	int paren = sym_param("paren", 0) ? sym_choice("paren", n) : n; // position of "(", closed two leaves later
	int plen = sym_param("plen", 2);
	for (int i = 0; i < n; ++i) {
		if (i > 0) {
			switch (sym_choice("op", ops)) {
			case 0: break;
			case 1: add("-o"); tok(T_OR); break;
			case 2: add(","); tok(T_COMMA); break;
			case 3: add("-a"); tok(T_AND); break;
			case 4: add("-or"); tok(T_OR); break;
			case 5: add("-and"); tok(T_AND); break;
			}
		}
		if (i == paren) {
			if (neg && sym_bool("negp")) { add("!"); tok(T_NOT); }
			add("("); tok(T_OPEN);
		}
		if (neg && sym_bool("neg")) {
			add("!"); tok(T_NOT);
			if (neg == 2 && sym_bool("negneg")) { add("-not"); tok(T_NOT); }
		}
		leaf(set, 4);
		if (paren < n && (i == paren + plen - 1 || (i == n - 1 && i < paren + plen - 1))) { add(")"); tok(T_CLOSE); }
	}
	if (nlimit) sym_assume(haveact); // -limit requires an explicit action
	int ret = bfs_run(ac, av);
	mio_str(&mio_out);
	mio_str(&mio_err);
	for (int i = 0; i < ac; ++i) sym_note(av[i]);
	notes();

	bool exclx = false, nohid = false;
	for (int i = 0; i < ntk; ++i) if (tk[i].k == T_LEAF) { exclx |= tk[i].leaf == EXCLUDE; nohid |= tk[i].leaf == NOHIDDEN; }
	bool prunex = false, pruned_d = false;
	for (int i = 0; i < 4 && !quit; ++i) {
		cur = &files[i];
		if (i > 0 && pruned_d) break;
		if (i == 3 && prunex) break;
		if (i == 1 && exclx) { prunex = true; continue; }
		if (cur->hidden && nohid) continue;
		pruned = false;
		pos = 0;
		bool r = ecomma(true);
		if (!haveact && r && !quit) { out(cur->path); out("\n"); }
		if (i == 0) pruned_d = pruned;
		if (i == 1) prunex = pruned;
	}
	ref[nref] = 0;
	sym_note("expected");
	sym_note(ref);
	SYM_ASSERT(mio_out.len == (size_t)nref && memcmp(mio_out.buf, ref, nref) == 0, "actions run exactly for the files the expression selects");
	SYM_ASSERT(ret == status, "exit status");
	sym_cover("done");
	no_leaks();
}
