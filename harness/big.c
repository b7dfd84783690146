// Whole-program traversals of large trees: many entries, deep paths and long
// names, with symbolic dimensions.
#include "common.h"
#include <errno.h>
#include <stdio.h>
#include <fcntl.h>

enum { MAXN = 420 };
struct node { int parent, depth; bool dir, seen, lost; int pos, kids, lastkid; char *path; size_t plen; const char *name; struct mnode *m; };
static struct node t[MAXN];
static int nt;
#ifdef NOIOQ
int mioq_budget, mioq_depth;
#else
extern int mioq_budget, mioq_depth;
#endif
static size_t len_;
static int perm;

static int node(int parent, bool dir, const char *fixed) {
	if (nt >= MAXN) abort();
	int i = nt++;
	struct node *n = &t[i];
	n->parent = parent;
	n->dir = dir;
	n->depth = parent < 0 ? 0 : t[parent].depth + 1;
	n->lastkid = -1;
	char *nm;
	if (fixed) nm = (char *)fixed;
	else {
		size_t l = len_ < 2 ? 2 : len_;
		nm = mos_alloc(l + 1);
		int id = perm == 1 ? MAXN - 1 - i : perm == 2 ? i * 19 % 421 : i;
		nm[0] = 'a' + id / 26;
		nm[1] = 'a' + id % 26;
		for (size_t k = 2; k < l; ++k) nm[k] = "x-y.z w"[k % 7];
		nm[l] = 0;
	}
	n->name = nm;
	size_t pl = parent < 0 ? 0 : t[parent].plen + 1, l = strlen(nm);
	n->path = mos_alloc(pl + l + 1);
	if (pl) { memcpy(n->path, t[parent].path, pl - 1); n->path[pl - 1] = '/'; }
	memcpy(n->path + pl, nm, l + 1);
	n->plen = pl + l;
	struct mnode *d = parent < 0 ? mfs_cwd : t[parent].m;
	n->m = dir ? mfs_mkdir(d, nm) : mfs_mkfile(d, nm, "");
	n->m->id = i;
	if (dir) d->nlink++;
	if (parent >= 0) t[parent].kids++;
	return i;
}
static int below(int i, int a) { for (; i >= 0; i = t[i].parent) if (i == a) return 1; return 0; }

static const char *av[40];
static int ac;
static void add(const char *s) { av[ac++] = s; }

void harness(void) {
	world();
	mfs_big = true;
	int shape = sym_param("shape", 0), strat = sym_param("strat", 0), sort = sym_param("sort", 0), post = sym_param("post", 0), threads = sym_param("threads", 1);
	perm = sym_param("perm", 0);
	int lo = sym_param("lo", 1), hi = sym_param("hi", 40), len = sym_param("len", 2);
	len_ = len;
	if (sym_param("symlen", 0)) len_ = len + sym_choice("len", sym_param("symlen", 0));
	int size = lo + sym_choice("size", hi - lo + 1), w = sym_param("w", 1);
	int root = node(-1, true, "r");
	if (shape == 0) { // a chain, with files around it at each level
		int d = root;
		for (int i = 0; i < size; ++i) {
			int f = i % 2;
			if (f) for (int k = 0; k < w; ++k) node(d, false, NULL);
			int nd = node(d, true, NULL);
			if (!f) for (int k = 0; k < w; ++k) node(d, false, NULL);
			d = nd;
		}
		node(d, false, NULL);
	} else if (shape == 1) { // one directory with many entries
		for (int i = 0; i < size; ++i) {
			int c = node(root, i % 3 != 1, NULL);
			if (t[c].dir) for (int k = 0; k < w; ++k) node(c, i % 2, NULL);
		}
	} else if (shape == 2) { // a chain with side directories
		int d = root;
		for (int i = 0; i < size; ++i) {
			int nd = -1;
			for (int k = 0; k < w; ++k) {
				int c = node(d, true, NULL);
				if (k == i % w) nd = c; else node(c, k % 2, NULL);
			}
			d = nd;
		}
	} else { // a complete tree of the given degree
		int first = root, last = root;
		for (int l = 0; l < w; ++l) {
			int n0 = nt;
			for (int d = first; d <= last; ++d) if (t[d].dir) for (int k = 0; k < size; ++k) node(d, k % 4 != 3, NULL);
			first = n0; last = nt - 1;
		}
	}
	if (sym_param("dt", 0)) mfs_dt_unknown = 1;
	mfs_chunk = sym_param("chunk", 0);
	long nofile = sym_param("nofile", 0);
	if (nofile) { menv_nofile_cur = menv_nofile_max = nofile; mfs_nofile = nofile; }
	mioq_budget = sym_param("budget", 0);
	mioq_depth = sym_param("qdepth", 0);

	add("bfs");
	if (sort) add("-s");
	static const char *strats[] = {"bfs", "dfs", "ids", "eds"};
	if (strat) { add("-S"); add(strats[strat]); }
	if (threads > 1) { static char jj[8]; snprintf(jj, sizeof(jj), "-j%d", threads); add(jj); } else add("-j1");
	add("r");
	if (post) add("-depth");
	int lim = sym_param("lim", 0);
	int mind = 0, maxd = 1000, prune = -1;
	static struct numarg a1, a2;
	if (lim & 1) { add("-mindepth"); add(numarg(&a1, 2, "", false)); sym_assume(a1.val <= size + 2); mind = sym_concretize(a1.val); }
	if (lim & 2) { add("-maxdepth"); add(numarg(&a2, 2, "", false)); sym_assume(a2.val <= size + 2); maxd = sym_concretize(a2.val); }
	for (int i = 0; i < nt; ++i) t[i].lost = t[i].depth < mind || t[i].depth > maxd;
	int action = sym_param("action", 0);
	if (action == 2) {
		prune = sym_choice("prune", nt);
		sym_assume(t[prune].dir && t[prune].depth >= mind);
		for (int i = 0; i < nt; ++i) if (i != prune && below(i, prune)) t[i].lost |= !post;
		add("-name"); add(t[prune].name); add("-prune"); add("-print"); add("-o"); add("-print");
	} else if (action == 1) add("-delete");
	else if (action == 3) { add("-links"); add("+0"); add("-print"); }
	else add("-print");

	int err = sym_param("err", 0), bad = -1;
	if (err) {
		int nd = 0, dirs[MAXN];
		for (int i = 1; i < nt; ++i) if (t[i].dir && t[i].kids) dirs[nd++] = i;
		if (!nd) sym_assume(0);
		bad = dirs[nd * sym_choice("bad", 4) / 4];
		if (err == 1) t[bad].m->err_open = EACCES;
		if (err == 2) t[bad].m->err_readdir = EIO, t[bad].m->err_after = 0;
		if (err == 3) t[bad].m->err_unlink = EACCES;
		for (int i = 0; i < nt; ++i) if (i != bad && below(i, bad)) t[i].lost = err != 3;
	}

	int ret = bfs_run(ac, av);
	mio_str(&mio_out);
	mio_str(&mio_err);
	for (int i = 0; i < ac; ++i) sym_note(av[i]);
	if (action == 1) {
		for (int i = 0; i < nt; ++i) {
			bool stay = bad >= 0 && (t[i].lost || below(bad, i));
			SYM_ASSERT(t[i].m->gone == !stay, stay ? "what cannot be removed stays" : "everything selected is removed");
		}
	} else {
		char *p = mio_out.buf, *end = p + mio_out.len;
		int prev = -1, n = 0;
		while (p < end) {
			char *q = memchr(p, '\n', end - p);
			SYM_ASSERT(q != NULL, "output lines are complete");
			*q = 0;
			int i = 0;
			if (strcmp(p, "r") != 0) {
				char *b = strrchr(p, '/');
				SYM_ASSERT(b != NULL, "only real paths are visited");
				for (i = 1; i < nt; ++i) if (t[i].name[0] == b[1] && t[i].name[1] == b[2]) break;
				SYM_ASSERT(i < nt && (size_t)(q - p) == t[i].plen && memcmp(p, t[i].path, t[i].plen) == 0, "only real paths are visited");
			}
			SYM_ASSERT(!t[i].seen, "no file is visited twice");
			SYM_ASSERT(!t[i].lost, "nothing is found outside the limits or in unreadable directories");
			t[i].seen = true;
			t[i].pos = n++;
			int up = t[i].parent;
			if (!post && up >= 0 && t[up].depth >= mind) SYM_ASSERT(t[up].seen, "a directory comes before its contents");
			if (post && up >= 0) SYM_ASSERT(!t[up].seen, "-depth: contents come before their directory");
			if (prev >= 0 && (threads == 1 || sort)) {
				if ((strat == 0 || strat == 2) && !post) SYM_ASSERT(t[prev].depth <= t[i].depth, "breadth-first: shallower files come first");
				if (strat == 1 && !post) SYM_ASSERT(below(prev, up), "depth-first: a subtree is finished before its siblings");
				if (strat == 1 && post) SYM_ASSERT(t[prev].parent == i || below(i, t[prev].parent), "depth-first post-order");
			}
			if (sort && up >= 0 && (!post || strat == 1 || strat == 2)) {
				int l = t[up].lastkid;
				if (l >= 0) SYM_ASSERT(strcmp(t[l].name, t[i].name) < 0, "-s: siblings are visited in sorted order");
				t[up].lastkid = i;
			}
			prev = i;
			p = q + 1;
		}
		for (int i = 0; i < nt; ++i) SYM_ASSERT(t[i].seen || t[i].lost, "every file in the tree is visited");
	}
	if (bad >= 0) {
		SYM_ASSERT(ret != 0, "an error gives a failing exit status");
		SYM_ASSERT(mio_err.len > 0, "an error is reported");
	} else {
		SYM_ASSERT(ret == 0, "no error, successful exit status");
		SYM_ASSERT(mio_err.len == 0, "no error, no message");
	}
	sym_cover("done");
	no_leaks();
	SYM_ASSERT(!nofile || mfs_peak <= nofile, "descriptor limit respected");
}
