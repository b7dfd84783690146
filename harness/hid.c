// Hidden files and exclusions, for symbolic names and every spelling of the root.
#include "common.h"
#include <stdio.h>

#ifdef NOIOQ
int mioq_budget, mioq_depth;
#else
extern int mioq_budget, mioq_depth;
#endif

enum { MAXF = 8 };
struct file { char path[40]; char base[12]; int up, kids; bool seen; };
static struct file e[MAXF];
static int ne;

static bool hidden(const char *base) { return base[0] == '.' && strcmp(base, ".") != 0 && strcmp(base, "..") != 0; }
static int put(int up, const char *path, const char *base) {
	int i = ne++;
	e[i].up = up;
	if (up >= 0) {
		size_t n = strlen(e[up].path);
		memcpy(e[i].path, e[up].path, n);
		if (e[up].path[n - 1] != '/') e[i].path[n++] = '/';
		strcpy(e[i].path + n, base);
		e[up].kids++;
	} else strcpy(e[i].path, path);
	strcpy(e[i].base, base);
	return i;
}
void harness(void) {
	world();
	mioq_budget = sym_param("budget", 2);
	int form = sym_param("form", 0), strat = sym_param("strat", 0), threads = sym_param("threads", 1);
	static const struct { const char *arg, *base, *dir; } roots[] = {
		{".", ".", "/w"}, {"./", ".", "/w"}, {".//", ".", "/w"}, {"d/..", "..", "/w"}, {"d/../", "..", "/w"}, {"d/.", ".", "/w/d"}, {"d/./", ".", "/w/d"},
		{"d", "d", "/w/d"}, {"d/", "d", "/w/d"}, {"./d//", "d", "/w/d"}, {".h", ".h", "/w/.h"}, {".h/", ".h", "/w/.h"}, {"./.h//", ".h", "/w/.h"}, {"..h/", "..h", "/w/..h"}, {"...", "...", "/w/..."}, {".../", "...", "/w/..."},
	};
	int rk = sym_choice("root", 16);
	struct mnode *d = mfs_cwd;
	const char *dn = roots[rk].dir;
	if (dn[2]) d = mfs_mkdir(mfs_cwd, dn + 3);
	else mfs_mkdir(mfs_cwd, "d");
	int r = put(-1, roots[rk].arg, roots[rk].base);
	if (!dn[2]) put(r, NULL, "d");
	static const char *l1[] = {"a", ".a", "..a", "..."}, *l3[] = {"c", ".c"};
	const char *n1 = l1[sym_choice("n1", 4)], *n3 = l3[sym_choice("n3", 2)];
	static char n2[3];
	int len = 1 + sym_choice("len", 2); // any name of one or two bytes
	for (int i = 0; i < len; ++i) { n2[i] = sym_u8("n2"); sym_assume(n2[i] != 0 && n2[i] != '/' && n2[i] != '\n'); }
	sym_assume(n2[0] != '.' || (len == 2 && n2[1] != '.'));
	struct mnode *m1 = mfs_mkdir(d, n1);
	mfs_mkfile(m1, n2, "");
	mfs_mkfile(d, n3, "");
	int i1 = put(r, NULL, n1);
	put(i1, NULL, n2);
	put(r, NULL, n3);

	static const char *forms[][9] = {
		{"-hidden", "-print"}, {"-nohidden", "-print"}, {"-nohidden", "-hidden", "-print"}, {"-exclude", "-name", "@", "-print"}, {"-depth", "-nohidden", "-print"},
		{"-print", "-exclude", "-hidden"}, {"!", "-hidden", "-print"}, {"-depth", "-print", "-exclude", "-name", "@"}, {"-false", "-exclude", "-hidden", "-o", "-print"},
	};
	bool excl[MAXF], sel[MAXF];
	for (int i = 0; i < ne; ++i) {
		bool h = hidden(e[i].base), named = strcmp(e[i].base, n1) == 0;
		bool x = form == 1 || form == 2 || form == 4 || form == 5 || form == 8 ? h : form == 3 || form == 7 ? named : false;
		excl[i] = x || (e[i].up >= 0 && excl[e[i].up]);
		sel[i] = !excl[i] && (form == 0 || form == 2 ? h : form == 6 ? !h : true);
	}
	const char *av[20];
	int n = 0;
	av[n++] = "bfs";
	static const char *strats[] = {"bfs", "dfs", "ids", "eds"};
	if (strat) { av[n++] = "-S"; av[n++] = strats[strat]; }
	av[n++] = threads > 1 ? "-j2" : "-j1";
	av[n++] = roots[rk].arg;
	for (int i = 0; forms[form][i]; ++i) av[n++] = forms[form][i][0] == '@' ? n1 : forms[form][i];
	int ret = bfs_run(n, av);
	mio_str(&mio_out);
	mio_str(&mio_err);
	for (int i = 0; i < n; ++i) sym_note(av[i]);
	sym_note(n1); sym_note(n2); sym_note(n3);
	notes();
	SYM_ASSERT(ret == 0 && mio_err.len == 0, "no error");
	for (char *p = mio_out.buf, *end = p + mio_out.len; p < end;) {
		char *q = memchr(p, '\n', end - p);
		SYM_ASSERT(q != NULL, "output lines are complete");
		*q = 0;
		int k = -1;
		for (int i = 0; i < ne; ++i) if (!e[i].seen && strcmp(e[i].path, p) == 0) k = i;
		SYM_ASSERT(k >= 0, "only real paths, once each");
		SYM_ASSERT(sel[k], "a file is shown only if it is selected and not excluded");
		e[k].seen = true;
		sym_cover("printed");
		p = q + 1;
	}
	for (int i = 0; i < ne; ++i) SYM_ASSERT(e[i].seen == sel[i], "every file that is selected and not excluded is shown");
	sym_cover("done");
	no_leaks();
}
