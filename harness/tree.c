// Whole-program traversals over every small tree: what is visited, in which
// order, and how errors, limits and symbolic links are handled.
#include "common.h"
#include <errno.h>
#include <stdio.h>
#include <fcntl.h>

enum { FILE_, DIR_, LINK_ };
enum { MAXN = 9, MAXE = 40 };

// the tree
struct tn { int parent, kind, tgt; char name[8]; struct mnode *m; char abs[48]; };
static struct tn t[MAXN];
static int nt;
static int perm_ = 0;
#ifdef NOIOQ
int mioq_budget, mioq_depth;
#else
extern int mioq_budget, mioq_depth;
#endif

// what should be visited
struct ev { char path[64]; int depth, up, node; bool seen; int pos; bool descended; };
static struct ev ev[MAXE];
static int nev;
static int nerr; // expected error messages

static int follow, mind = 0, maxd = 99, prune = -1, pruneall, xdev, unique;
static int err_node = -1, err_kind, err_no, err_after, race;
static bool many[MAXN];
static bool fails(int n) { return n == err_node || many[n]; }
static bool dtu[MAXN];
static bool hasroot2;

static bool raced(int depth) { return race && depth > 0 && (err_no == ENOENT || err_no == ENOTDIR); }
static int root_(int i) { return t[i].parent < 0; }

static void build(int n, int kinds, int nroots) {
	static const char order[3][10] = {"abcdefgh", "hgfedcba", "cahbfdge"};
	for (int r = 0; r < nroots; ++r) {
		t[r].parent = -1;
		t[r].kind = DIR_;
		t[r].name[0] = 'r' + r;
		t[r].m = mfs_mkdir(mfs_cwd, t[r].name);
		memcpy(t[r].abs, "/w/", 3);
		t[r].abs[3] = t[r].name[0];
	}
	nt = nroots;
	int prev = 0;
	for (int i = nroots; i < nroots + n; ++i) {
		int p = prev + sym_choice("parent", i - prev);
		sym_assume(t[p].kind == DIR_);
		prev = p;
		t[i].parent = p;
		int k[3], nk = 0;
		for (int j = 0; j < 3; ++j) if (kinds >> j & 1) k[nk++] = j;
		t[i].kind = nk == 1 ? k[0] : k[sym_choice("kind", nk)];
		static const char *odd[] = {"..a", ".b", "...", "-c", "a b", "\\", "aaaaaaa", "*"};
		if (sym_param("names", 0) == 2) { // the same names in every directory
			int k = 0;
			for (int j = 0; j < i; ++j) k += t[j].parent == p;
			t[i].name[0] = order[perm_][k];
		} else if (sym_param("names", 0)) strcpy(t[i].name, odd[(i - nroots + perm_) % 8]);
		else t[i].name[0] = order[perm_][i - nroots];
		strcpy(t[i].abs, t[p].abs);
		strcat(t[i].abs, "/");
		strcat(t[i].abs, t[i].name);
		t[i].tgt = -2;
		nt = i + 1;
	}
	for (int i = nroots; i < nt; ++i) {
		struct mnode *d = t[t[i].parent].m;
		if (t[i].kind == FILE_) t[i].m = mfs_mkfile(d, t[i].name, "");
		else if (t[i].kind == DIR_) t[i].m = mfs_mkdir(d, t[i].name);
		else {
			int g = sym_choice("target", nt + 1);
			t[i].tgt = g < nt ? g : -1;
			if (unique && follow == 0 && g < nt && t[g].kind == FILE_) { // hard link
				while (!t[g].m) sym_assume(0);
				t[i].kind = FILE_;
				t[i].m = t[g].m;
				t[g].m->nlink++;
				mfs_add(d, t[i].name, t[g].m);
			} else
			t[i].m = mfs_symlink(d, t[i].name, g < nt ? t[g].abs : "/nowhere");
		}
		d->nlink += t[i].kind == DIR_;
	}
}
static struct ment *entof(int i) {
	struct mnode *d = t[t[i].parent].m;
	for (int j = 0; j < d->nent; ++j) if (d->ent[j].node == t[i].m) return &d->ent[j];
	return NULL;
}

// Follow a chain of links; -1 for a dangling link or a loop
static int resolve(int i, int *why) {
	for (int k = 0; k < 8; ++k) {
		if (t[i].kind != LINK_) return i;
		if (t[i].tgt < 0) { *why = ENOENT; return -1; }
		i = t[i].tgt;
	}
	*why = ELOOP;
	return -1;
}

static void expect(const char *path, int i, int depth, int up) {
	int node = i, why = 0;
	if (t[i].kind == LINK_ && (follow == 2 || (follow == 1 && depth == 0))) {
		int r = resolve(i, &why);
		if (r >= 0) node = r;
		else if (why == ELOOP) { nerr++; return; }
	}
	if (fails(node) && err_kind == 2) {
		// stat() fails: only matters if it was needed
		bool needed = depth == 0 || dtu[i] || follow == 2 || xdev || unique;
		if (needed) {
			if (!raced(depth)) nerr++;
			return;
		}
	}
	if (t[node].kind == DIR_ && node != i) {
		// a link that leads back up is an error
		for (int a = up; a >= 0; a = ev[a].up) if (ev[a].node == node) { nerr++; return; }
	}
	if (xdev && depth > 0 && t[node].m->dev_minor != t[ev[up].node].m->dev_minor) {
		if (xdev == 2) return; // -mount: not even the mount point
	}
	int me = nev++;
	strcpy(ev[me].path, path);
	ev[me].depth = depth;
	ev[me].up = up;
	ev[me].node = node;
	ev[me].seen = false;
	if (t[node].kind != DIR_) return;
	if (depth >= maxd) return;
	if (prune >= 0 && strcmp(t[i].name, t[prune].name) == 0 && depth >= mind) return;
	if (xdev == 1 && depth > 0 && t[node].m->dev_minor != t[ev[up].node].m->dev_minor) return;
	if (fails(node) && err_kind == 0) {
		if (!raced(depth)) nerr++;
		return;
	}
	ev[me].descended = true;
	int k = 0;
	for (int c = 0; c < nt; ++c) {
		if (t[c].parent != node) continue;
		if (fails(node) && err_kind == 1 && k >= err_after) break;
		k++;
		char p[64];
		strcpy(p, path);
		strcat(p, "/");
		strcat(p, t[c].name);
		expect(p, c, depth + 1, me);
	}
	if (fails(node) && err_kind == 1 && !raced(depth)) nerr++;
}

static int find(const char *s, size_t len) {
	for (int i = 0; i < nev; ++i) if (!ev[i].seen && strlen(ev[i].path) == len && memcmp(ev[i].path, s, len) == 0) return i;
	return -1;
}
static bool known(const char *s, size_t len) {
	for (int i = 0; i < nev; ++i) if (strlen(ev[i].path) == len && memcmp(ev[i].path, s, len) == 0) return true;
	return false;
}

// a directory or file that works a few times before it starts to fail
static int later_node = -1, later_left, later_hit, later_err;
static const char *later_op;
static int later_fault(const char *op, struct mnode *n) {
	if (n != t[later_node].m || strcmp(op, later_op) != 0) return 0;
	if (later_left > 0) { later_left--; return 0; }
	later_hit++;
	return later_err;
}
static bool below(int e, int node) {
	for (; e >= 0; e = ev[e].up) if (ev[e].node == node) return true;
	return false;
}

static const char *av[40];
static int ac;
static void add(const char *s) { av[ac++] = s; }

static int order_[MAXE], norder;

// -unique: every file that can be reached is visited under exactly one of its names
static bool reach[MAXN];
static void reach_(int i, int depth) {
	int why, r = i;
	if (t[i].kind == LINK_ && follow == 2) { r = resolve(i, &why); if (r < 0) { if (why == ENOENT) reach[i] = true; return; } }
	if (reach[r]) return;
	reach[r] = true;
	if (t[r].kind == DIR_) for (int c = 0; c < nt; ++c) if (t[c].parent == r) reach_(c, depth + 1);
}
static void check_unique(int ret) {
	reach_(0, 0);
	if (t[1].parent < 0) reach_(1, 0);
	int count[MAXN] = {0};
	char *p = mio_out.buf, *end = p + mio_out.len;
	while (p < end) {
		char *q = p;
		while (q < end && *q != '\n') ++q;
		SYM_ASSERT(q < end, "output lines are complete");
		*q = 0;
		// walk the path through the tree
		int cur = -1, last = -1;
		for (char *c = p; *c; ++c) {
			if (*c == '/') continue;
			int found = -1, why;
			for (int i = 0; i < nt; ++i) if (t[i].parent == cur && t[i].name[0] == *c) found = i;
			SYM_ASSERT(found >= 0, "only real paths are visited");
			last = found;
			int r = resolve(found, &why);
			cur = follow == 2 && r >= 0 ? r : found;
		}
		struct mnode *m = t[cur].m;
		for (int i = 0; i < nt; ++i) if (t[i].m == m) count[i]++;
		p = q + 1;
	}
	for (int i = 0; i < nt; ++i) {
		SYM_ASSERT(count[i] <= 1, "-unique: no file is visited twice");
		if (reach[i]) SYM_ASSERT(count[i] == 1, "-unique: every file is visited once");
	}
	sym_cover("done");
	no_leaks();
}

void harness(void) {
	world();
	int n = sym_param("n", 3), nroots = sym_param("roots", 1);
	int strat = sym_param("strat", 0), sort = sym_param("sort", 0), post = sym_param("post", 0), threads = sym_param("threads", 1);
	follow = sym_param("follow", 0);
	perm_ = sym_param("perm", 0);
	xdev = sym_param("xdev", 0);
	unique = sym_param("unique", 0);
	race = sym_param("race", 0);
	build(n, sym_param("kinds", 3), nroots);
	int same = sym_param("same", 0); // the same root twice

	// what the kernel says about entry types
	int dt = sym_param("dt", 0);
	for (int i = nroots; i < nt; ++i) {
		struct ment *e = entof(i);
		if (dt == 1) { dtu[i] = sym_bool("dtunknown"); if (dtu[i]) e->type = 0; }
		if (dt == 2) { dtu[i] = true; e->type = 0; }
	}
	if (sym_param("statx", 1) == 0) mfs_statx_err = ENOSYS;
	if (sym_param("statx", 1) == 2) mfs_statx_err = EPERM;
	mfs_chunk = sym_param("chunk", 0);
	long nofile = sym_param("nofile", 0);
	if (nofile) { menv_nofile_cur = menv_nofile_max = nofile; mfs_nofile = nofile; }
	long emfile = sym_param("emfile", 0); // fewer descriptors than the limit says
	if (emfile) mfs_nofile = emfile;
	if (sym_param("pathmax", 0)) mfs_path_max = sym_param("pathmax", 0);
	mioq_budget = sym_param("budget", 6);
	mioq_depth = sym_param("qdepth", 0);
	if (sym_param("symids", 0)) {
		// any device and inode numbers, as long as no two files share both
		for (int i = 0; i < nt; ++i) {
			struct mnode *m = t[i].m;
			m->ino = sym_u64("ino") & (unique ? 0x100000011ull : -1ull);
			m->dev_minor = xdev ? sym_u8("dev") : sym_u8("dev") & 3;
			if (xdev && i >= nroots && t[i].kind != DIR_) sym_assume(m->dev_minor == t[t[i].parent].m->dev_minor);
			for (int j = 0; j < i; ++j) if (t[j].m != m) sym_assume((m->ino != t[j].m->ino) | (m->dev_minor != t[j].m->dev_minor));
		}
	}

	add("bfs");
	if (sort) add("-s");
	static const char *strats[] = {"bfs", "dfs", "ids", "eds"};
	if (strat) { add("-S"); add(strats[strat]); }
	if (threads > 1) { static char jj[8]; snprintf(jj, sizeof(jj), "-j%d", threads); add(jj); } else add("-j1");
	if (follow == 1) add("-H");
	if (follow == 2) add("-L");
	int rootlink = sym_param("rootlink", 0);
	if (rootlink) { // the argument is a link to the root
		mfs_symlink(mfs_cwd, "l", "r");
		add("l");
	} else {
		static const char *rootname[] = {"r", "./r", "r/", "/w/r", "r//", "."};
		add(rootname[sym_param("rootname", 0)]);
		if (nroots == 2) add("s");
		if (same) add("r");
	}
	if (post) add("-depth");
	if (xdev == 1) add("-xdev");
	if (xdev == 2) add("-mount");
	if (unique) add("-unique");
	if (race) add("-ignore_readdir_race");
	static struct numarg a1, a2;
	int lim = sym_param("lim", 0);
	if (lim & 1) { add("-mindepth"); add(numarg(&a1, 1, "", false)); mind = a1.val; }
	if (lim & 2) { add("-maxdepth"); add(numarg(&a2, 1, "", false)); maxd = a2.val; }
	if (lim) { sym_assume(a1.val <= 4 && a2.val <= 4); mind = sym_concretize(mind); if (lim & 2) maxd = sym_concretize(maxd); }
	int action = sym_param("action", 0);
	int quit = -1, quitform = 0;
	if (action == 1) { // prune one directory
		prune = sym_choice("prune", nt);
		sym_assume(t[prune].kind == DIR_);
		add("-name"); add(t[prune].name); add("-prune"); add("-print"); add("-o"); add("-print");
		if (post) prune = -1; // -depth disables -prune
	} else if (action == 2) {
		quit = sym_choice("quit", nt);
		quitform = sym_param("quitform", 0);
		static const char *forms[][12] = {{"-print", "-name", "@", "-quit"}, {"-name", "@", "-quit", ",", "-print"}, {"(", "-name", "@", "-quit", "-o", "-true", ")", "-print"}, {"!", "(", "-name", "@", "-quit", ")", "-print"}};
		for (int i = 0; forms[quitform][i]; ++i) add(forms[quitform][i][0] == '@' ? t[quit].name : forms[quitform][i]);
	} else if (action == 3) { // needs stat
		add("-links"); add("+0"); add("-print");
	} else {
		add("-print");
	}
	int err = sym_param("err", 0);
	if (err) {
		err_kind = err - 1;
		err_node = sym_choice("errnode", nt);
		if (err_kind < 2) sym_assume(t[err_node].kind == DIR_);
		err_no = sym_u8("errno");
		sym_assume((err_no == EACCES) | (err_no == EIO) | (err_no == ENOENT) | (err_no == ENOTDIR) | (err_no == ELOOP) | (err_no == EPERM) | (err_no == EOVERFLOW));
		if (err_kind == 0) t[err_node].m->err_open = err_no;
		if (err_kind == 1) { t[err_node].m->err_readdir = err_no; err_after = sym_choice("after", 3); { int nc = 0; for (int i = 0; i < nt; ++i) nc += t[i].parent == err_node; sym_assume(err_after <= nc); } t[err_node].m->err_after = err_after; mfs_chunk = 1; }
		if (err_kind == 2) t[err_node].m->err_stat = err_no;
		if (err_kind == 2) sym_assume(err_no != ENOENT); // a vanished link target is a dangling link
		err_no = sym_concretize(err_no);
	}

	int manyerr = sym_param("many", 0); // any set of files fails in the same way
	if (manyerr) {
		err_kind = manyerr - 1;
		err_no = err_kind == 1 ? EIO : EACCES;
		for (int i = nroots; i < nt; ++i) {
			if (t[i].kind != DIR_ && err_kind < 2) continue;
			many[i] = sym_bool("fails");
			if (!many[i]) continue;
			if (err_kind == 0) t[i].m->err_open = err_no;
			if (err_kind == 1) t[i].m->err_readdir = err_no, t[i].m->err_after = 0;
			if (err_kind == 2) t[i].m->err_stat = err_no;
		}
	}

	int later = sym_param("later", 0);
	if (later) {
		later_node = sym_choice("laternode", nt);
		sym_assume(t[later_node].kind == DIR_);
		later_left = sym_choice("laterleft", 4);
		later_op = later == 1 ? "open" : "stat";
		static const int es[] = {EACCES, EIO};
		later_err = es[sym_choice("latererr", 2)];
		mfs_fault = later_fault;
	}
	int ret = bfs_run(ac, av);
	mio_str(&mio_out);
	mio_str(&mio_err);
	for (int i = 0; i < ac; ++i) sym_note(av[i]);
	for (int i = 0; i < nt; ++i) { sym_note(t[i].abs); sym_note(t[i].kind == FILE_ ? "file" : t[i].kind == DIR_ ? "dir" : "link"); }
	notes();

	if (unique) { check_unique(ret); return; }
	// expected visits
	if (rootlink) {
		int k = nt++;
		t[k].parent = -1; t[k].kind = LINK_; t[k].tgt = 0; t[k].name[0] = 'l';
		expect("l", k, 0, -1);
	} else {
		static const char *rp[] = {"r", "./r", "r/", "/w/r", "r//", "."};
		expect(rp[sym_param("rootname", 0)], 0, 0, -1);
		if (nroots == 2) expect("s", 1, 0, -1);
		if (same) expect("r", 0, 0, -1);
	}
	// joining: no doubled slash after a root with trailing slashes
	for (int i = 0; i < nev; ++i) {
		const char *rp = rootlink ? "l" : NULL;
		int rn = sym_param("rootname", 0);
		if ((rn == 2 || rn == 4) && ev[i].depth > 0) {
			char b[64];
			size_t rl = rn == 2 ? 2 : 3;
			memcpy(b, ev[i].path, rl);
			strcpy(b + rl, ev[i].path + rl + 1);
			strcpy(ev[i].path, b);
		}
	}

	// parse the output
	char *p = mio_out.buf, *end = p + mio_out.len;
	while (p < end) {
		char *q = p;
		while (q < end && *q != '\n') ++q;
		SYM_ASSERT(q < end, "output lines are complete");
		size_t len = q - p;
		int i = find(p, len);
		if (i < 0) {
			SYM_ASSERT(known(p, len), "nothing outside the requested tree and limits is visited");
			SYM_ASSERT(false, "no file is visited twice");
		}
		ev[i].seen = true;
		ev[i].pos = norder;
		SYM_ASSERT(ev[i].depth >= mind && ev[i].depth <= maxd, "depth limits are respected");
		order_[norder++] = i;
		p = q + 1;
	}
	if (quit < 0) {
		for (int i = 0; i < nev; ++i)
			if (ev[i].depth >= mind && ev[i].depth <= maxd && !(later_hit && below(i, later_node))) SYM_ASSERT(ev[i].seen, "every file in the tree is visited");
	} else {
		// -quit: nothing after the quitting file, everything before it in this order
		int q = -1;
		for (int k = 0; k < norder; ++k) if (strcmp(t[ev[order_[k]].node].name, t[quit].name) == 0) { q = k; break; }
		if (quitform) SYM_ASSERT(q < 0, "nothing is evaluated after -quit");
		else SYM_ASSERT(q == norder - 1, "-quit stops the search right there");
		sym_cover("quit");
	}
	// ordering
	for (int k = 0; k < norder; ++k) {
		struct ev *e = &ev[order_[k]];
		if (later_hit) continue;
		if (e->up >= 0 && ev[e->up].depth >= mind) {
			if (post) { if (quit < 0) SYM_ASSERT(ev[e->up].pos > e->pos, "-depth: contents come before their directory"); }
			else SYM_ASSERT(ev[e->up].seen && ev[e->up].pos < e->pos, "a directory comes before its contents");
		}
		if (k > 0 && (threads == 1 || sort)) {
			struct ev *b = &ev[order_[k - 1]];
			// roots are searched together, so only compare within the same depth order
			if ((strat == 0 || strat == 2) && !post) SYM_ASSERT(b->depth <= e->depth, "breadth-first: shallower files come first");
			if (strat == 1 && !post && nroots == 1 && !same) {
				// pre-order: the previous file's parent chain contains this file's parent
				bool ok = false;
				for (int a = order_[k - 1]; a >= 0; a = ev[a].up) if (a == e->up || (e->up >= 0 && ev[e->up].depth < mind)) ok = true;
				SYM_ASSERT(ok || e->up < 0, "depth-first: a subtree is finished before its siblings");
			}
			if (strat == 1 && post && nroots == 1 && !same && mind == 0) {
				// post-order: either a sibling subtree starts, or this is the parent of the previous one
				bool ok = b->up == order_[k];
				for (int a = e->up; a >= 0 && !ok; a = ev[a].up) if (a == b->up) ok = true;
				SYM_ASSERT(ok, "depth-first post-order");
			}
		}
		if (sort) {
			// siblings in name order
			for (int j = 0; j < k; ++j) {
				struct ev *b = &ev[order_[j]];
				if (b->up == e->up && e->up >= 0 && (!post || strat == 1 || strat == 2 || (t[b->node].kind != DIR_ && t[e->node].kind != DIR_))) SYM_ASSERT(strcmp(b->path, e->path) < 0, "-s: siblings are visited in sorted order");
				// and their subtrees in the same order (breadth-first)
				if (strat == 0 && !post && b->up >= 0 && e->up >= 0 && b->depth == e->depth && b->up != e->up && mind == 0)
					SYM_ASSERT(ev[b->up].pos < ev[e->up].pos, "-s: directories are read in the order they were visited");
			}
		}
	}
	// errors
	if (later_hit) {
		bool all = true;
		for (int i = 0; i < nev; ++i) all &= ev[i].seen;
		if (!all) {
			SYM_ASSERT(ret != 0, "files are never lost with a successful exit status");
			SYM_ASSERT(mio_err.len > 0, "files are never lost without a message");
			sym_cover("lost");
		}
	} else if (quit < 0) {
		if (nerr) {
			SYM_ASSERT(ret != 0, "an error gives a failing exit status");
			SYM_ASSERT(mio_err.len > 0, "an error is reported");
			sym_cover("error");
			if (err_node >= 0 && !root_(err_node)) SYM_ASSERT(strstr(mio_err.buf, t[err_node].abs + 3) != NULL, "the message names the file");
		} else {
			SYM_ASSERT(ret == 0, "no error, successful exit status");
			SYM_ASSERT(mio_err.len == 0, "no error, no message");
		}
	}
	sym_cover("done");
	no_leaks();
	SYM_ASSERT(!nofile || mfs_peak <= nofile, "descriptor limit respected");
}
