// -delete over every small tree: exactly the selected files disappear, nothing
// outside the tree is touched, failures are reported.
#include "common.h"
#include <errno.h>
#include <stdio.h>
#ifdef NOIOQ
int mioq_budget, mioq_depth;
#else
extern int mioq_budget, mioq_depth;
#endif
enum { FILE_, DIR_, LINK_ };
static struct { int parent, kind, depth; char name[2]; struct mnode *m; char path[24]; bool sel, fail, gone; } t[10];
static int nt;
static const char *av[32];
static int ac;
static void add(const char *s) { av[ac++] = s; }

static bool printed(const char *path, bool err) {
	struct mfile *f = err ? &mio_err : &mio_out;
	char *p = f->buf, *end = p + f->len;
	size_t n = strlen(path);
	while (p < end) {
		char *q = p;
		while (q < end && *q != '\n') ++q;
		if ((size_t)(q - p) == n && memcmp(p, path, n) == 0) return true;
		p = q + 1;
	}
	return false;
}

void harness(void) {
	world();
	int n = sym_param("n", 3), kinds = sym_param("kinds", 7), form = sym_param("form", 0), strat = sym_param("strat", 0);
	mioq_budget = sym_param("budget", 4);
	struct mnode *o = mfs_mkdir(mfs_cwd, "o"), *k = mfs_mkfile(o, "k", ""), *f = mfs_mkfile(mfs_cwd, "f", "");
	t[0].parent = -1; t[0].kind = DIR_; t[0].m = mfs_mkdir(mfs_cwd, "r"); strcpy(t[0].path, form == 4 ? "." : "r"); t[0].name[0] = form == 4 ? '.' : 'r';
	nt = 1;
	int prev = 0;
	for (int i = 1; i <= n; ++i) {
		int p = prev + sym_choice("parent", i - prev);
		sym_assume(t[p].kind == DIR_);
		prev = p;
		int ks[3], nk = 0;
		for (int j = 0; j < 3; ++j) if (kinds >> j & 1) ks[nk++] = j;
		t[i].parent = p;
		t[i].depth = t[p].depth + 1;
		t[i].kind = nk == 1 ? ks[0] : ks[sym_choice("kind", nk)];
		t[i].name[0] = 'a' + i;
		strcpy(t[i].path, t[p].path);
		strcat(t[i].path, "/");
		strcat(t[i].path, t[i].name);
		struct mnode *d = t[p].m;
		if (t[i].kind == FILE_) t[i].m = mfs_mkfile(d, t[i].name, "");
		else if (t[i].kind == DIR_) t[i].m = mfs_mkdir(d, t[i].name);
		else { static const char *tg[] = {"/w/o", "/w/f", "/nowhere"}; t[i].m = mfs_symlink(d, t[i].name, tg[sym_choice("target", 3)]); }
		if (sym_param("dt", 0)) d->ent[d->nent - 1].type = 0;
		nt = i + 1;
	}
	add("bfs");
	static const char *strats[] = {"bfs", "dfs", "ids", "eds"};
	add("-S"); add(strats[strat]);
	static char jj[8];
	snprintf(jj, sizeof(jj), "-j%d", (int)sym_param("threads", 1)); add(jj);
	int follow = sym_param("follow", 0);
	if (follow) add(follow == 2 ? "-L" : "-H");
	if (form == 4) { mfs_cwd = t[0].m; add("."); }
	else add("r");
	int mind = 0, maxd = 99, x = -1;
	switch (form) {
	case 0: case 4: break;
	case 1: mind = 1; add("-mindepth"); add("1"); break;
	case 2: x = sym_choice("x", nt); add("-name"); add(t[x].name); break;
	case 3: add("-type"); add("f"); break;
	case 5: x = sym_choice("x", nt); add("!"); add("-name"); add(t[x].name); break;
	case 6: maxd = 1; add("-maxdepth"); add("1"); break;
	case 7: add("-empty"); break;
	}
	int fail = -1, err = 0;
	if (sym_param("fail", 0)) {
		fail = sym_choice("fail", nt);
		err = sym_u8("errno");
		sym_assume((err == EACCES) | (err == EPERM) | (err == EBUSY) | (err == EROFS) | (err == EIO));
		t[fail].m->err_unlink = err;
	}
	add("-delete");
	add("-print");
	long nofile = sym_param("nofile", 0);
	if (nofile) { menv_nofile_cur = menv_nofile_max = nofile; mfs_nofile = nofile; }

	int ret = bfs_run(ac, av);
	mio_str(&mio_out); mio_str(&mio_err);
	for (int i = 0; i < ac; ++i) sym_note(av[i]);
	for (int i = 0; i < nt; ++i) { sym_note(t[i].path); sym_note(t[i].kind == FILE_ ? "file" : t[i].kind == DIR_ ? "dir" : "link"); }
	notes();

	// reference: bottom-up
	bool anyerr = false;
	for (int i = nt - 1; i >= 0; --i) {
		bool sel = t[i].depth >= mind && t[i].depth <= maxd;
		if (form == 2) sel = i == x;
		if (form == 5) sel = i != x;
		int kind = t[i].kind; // the kind -type sees
		if (form == 3) sel = follow == 2 && t[i].kind == LINK_ ? t[i].m->target[1] == 'w' && t[i].m->target[3] == 'f' : t[i].kind == FILE_;
		bool empty = true;
		if (t[i].kind == DIR_) for (int c = i + 1; c < nt; ++c) if (t[c].parent == i && !t[c].gone) empty = false;
		if (form == 7) sel = t[i].kind == FILE_ ? true : t[i].kind == DIR_ ? empty : follow == 2 && t[i].m->target[3] == 'f' && t[i].m->target[1] == 'w';
		if (follow == 2 && t[i].kind == LINK_ && t[i].m->target[1] == 'w' && t[i].m->target[3] == 'o') sym_assume(0);
		if (!sel) continue;
		t[i].sel = true;
		if (i == 0 && form == 4) continue; // "." is never removed
		if (t[i].kind == DIR_ && !empty) { anyerr = true; t[i].fail = true; continue; }
		if (i == fail) { anyerr = true; t[i].fail = true; continue; }
		t[i].gone = true;
	}
	for (int i = 0; i < nt; ++i) {
		SYM_ASSERT(!t[i].m->gone || t[i].gone, "nothing that was not selected is deleted");
		SYM_ASSERT(t[i].m->gone || !t[i].gone, "everything that was selected is deleted");
		bool ok = t[i].sel && !t[i].fail;
		SYM_ASSERT(printed(t[i].path, false) == ok, "-delete is true exactly when the file was deleted");
		if (t[i].fail) SYM_ASSERT(strstr(mio_err.buf, t[i].path), "the file that could not be deleted is named");
	}
	SYM_ASSERT(!o->gone && !k->gone && !f->gone, "nothing outside the tree is deleted");
	SYM_ASSERT((ret != 0) == anyerr, "the exit status reports failures");
	SYM_ASSERT((mio_err.len != 0) == anyerr, "failures are reported");
	sym_cover("done");
	no_leaks();
}
