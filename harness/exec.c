// -exec, -execdir, -ok and -okdir over every small tree: each selected file is
// passed to exactly the right commands, in the right directory, and failures
// are reported.
#include "common.h"
#include <errno.h>
#include <stdio.h>
#ifdef NOIOQ
int mioq_budget, mioq_depth;
#else
extern int mioq_budget, mioq_depth;
#endif
struct mnode *mfs_walk(struct mnode *base, const char *path);
enum { FILE_, DIR_, LINK_ };
static struct { int parent, kind; const char *name; struct mnode *m, *dir; char path[48]; int seen; } t[8];
static int nt, nroots;
static const char *av[32];
static int ac;
static void add(const char *s) { av[ac++] = s; }
static struct mnode *cwd0;

static char tm[2][8]; // symbolic template arguments
static int ntm;
static const char *tmpl(int len) {
	char *p = tm[ntm++];
	for (int i = 0; i < len; ++i) {
		p[i] = sym_u8("tmpl");
		sym_assume(p[i] != 0);
		if (len == 1) sym_assume(p[i] != ';');
	}
	p[len] = 0;
	return p;
}
static char exp_[96];
static void subst(const char *tmp, const char *path) {
	char *o = exp_;
	while (*tmp) {
		if (tmp[0] == '{' && tmp[1] == '}') { for (const char *q = path; *q; ++q) *o++ = *q; tmp += 2; }
		else *o++ = *tmp++;
	}
	*o = 0;
}
static char *lines[16];
static int nlines;
static void split(void) {
	char *p = mio_out.buf, *end = p + mio_out.len;
	nlines = 0;
	while (p < end) {
		char *q = p;
		while (*q != '\n') ++q;
		*q = 0;
		lines[nlines++] = p;
		p = q + 1;
	}
}
static int find(const char *path) {
	for (int i = 0; i < nt; ++i) if (strcmp(t[i].path, path) == 0) return i;
	return -1;
}

static int failat = -1, failerr, failst;
#define nspawn (mproc_shared[0])
#define nfailed (mproc_shared[1])
static size_t biglimit, arglimit;
static int hook(struct mspawn *p) {
	SYM_ASSERT(mio_out.flushed == mio_out.len, "output written before a command runs is flushed before it starts");
	SYM_ASSERT(p->leaked == 0, "the command inherits no descriptors");
	SYM_ASSERT(p->sigmask == menv_sigmask0, "the command starts with the original signal mask");
	SYM_ASSERT(p->handlers == 0, "the command starts with the original signal dispositions");
	SYM_ASSERT(p->nofile == (unsigned long)sym_param("nofile", sym_param("softlimit", 1024)), "the command starts with the original descriptor limit");
	if (biglimit && p->total > biglimit) return E2BIG;
	if (arglimit) for (int i = 0; i < p->argc; ++i) if (strlen(p->argv[i]) > arglimit) return E2BIG;
	int i = nspawn++;
	if (i == failat) {
		if (failerr) { ++nfailed; return failerr; }
		p->status = failst;
	}
	return 0;
}
static bool ok_status(int st) { return st == 0; }

static void chkdir(struct mspawn *p, const char *arg, int i) {
	struct mnode *n = mfs_walk(p->cwd, arg);
	SYM_ASSERT(n == t[i].m, "relative to the command's working directory, the argument names the file");
	SYM_ASSERT(p->cwd == t[i].dir, "the command runs in the directory that contains the file");
	SYM_ASSERT(arg[0] == '.' && arg[1] == '/', "the argument starts with ./");
}

void harness(void) {
	world();
	int n = sym_param("n", 2), kinds = sym_param("kinds", 3), act = sym_param("act", 0), strat = sym_param("strat", 0), rf = sym_param("root", 0);
	mioq_budget = sym_param("budget", 4);
	struct mnode *bin = mfs_mkdir(mfs_root, "bin"), *c = mfs_mkfile(bin, "c", "");
	c->mode = S_IFREG | 0755;
	const char *want_exe = "/bin/c";
	bool relpath = false;
	if (sym_param("pathenv", 0)) {
		static const char *comp[] = {"/bin", "/none", "/alt", "", "rel", "/alt2"};
		static const char *exe[] = {"/bin/c", NULL, "/alt/c", NULL, "rel/c", NULL};
		static char path[64];
		struct mnode *alt = mfs_mkdir(mfs_root, "alt"), *rel = mfs_mkdir(mfs_cwd, "rel"), *alt2 = mfs_mkdir(mfs_root, "alt2");
		mfs_mkfile(alt, "c", "")->mode = S_IFREG | 0755;
		mfs_mkfile(rel, "c", "")->mode = S_IFREG | 0755;
		mfs_mkfile(alt2, "c", "");
		int k = 1 + sym_choice("ncomp", 3);
		want_exe = NULL;
		for (int i = 0; i < k; ++i) {
			int x = sym_choice("comp", 6);
			if (i) strcat(path, ":");
			strcat(path, comp[x]);
			if (!want_exe) want_exe = exe[x];
			if (x == 3 || x == 4) relpath = true;
		}
		menv_vars[0][0] = "PATH";
		menv_vars[0][1] = path;
	}
	cwd0 = mfs_cwd;
	static const char *roots[] = {"r", "r/", "./r", "/w/r", ".", "r//", "d/r", "d/r/", "../w/r"};
	struct mnode *top = mfs_cwd, *r;
	if (rf == 6 || rf == 7) { top = mfs_mkdir(mfs_cwd, "d"); }
	r = mfs_mkdir(top, "r");
	if (rf == 4) cwd0 = mfs_cwd = r;
	nt = nroots = 0;
	int two = sym_param("two", 0);
	t[nt].parent = -1; t[nt].kind = DIR_; t[nt].m = r; t[nt].dir = rf == 4 ? r : top; t[nt].name = rf == 4 ? "." : "r"; strcpy(t[nt].path, roots[rf]); ++nt; ++nroots;
	if (two) { // a second root, possibly sharing the first one's directory
		static const char *r2[] = {"", "q", "d/q", "/w/q", "./q", "r/q", "q/"};
		struct mnode *dd = two == 2 ? (rf == 6 || rf == 7 ? top : mfs_mkdir(mfs_cwd, "d")) : two == 5 ? r : mfs_cwd;
		t[nt].parent = -1; t[nt].kind = DIR_; t[nt].dir = dd; t[nt].m = mfs_mkdir(two == 5 ? mfs_cwd : dd, two == 5 ? "q_" : "q");
		if (two == 5) sym_assume(0);
		strcpy(t[nt].path, r2[two]); t[nt].name = "q"; ++nt; ++nroots;
	}
	static const char *names[] = {"a", "bb", "ccccccccccc", "d", "e"};
	static char nm[5][16];
	int prev = 0, first = nt;
	for (int i = first; i < first + n; ++i) {
		int p = prev + sym_choice("parent", i - prev);
		sym_assume(t[p].kind == DIR_);
		prev = p;
		int ks[3], nk = 0;
		for (int j = 0; j < 3; ++j) if (kinds >> j & 1) ks[nk++] = j;
		t[i].parent = p;
		t[i].kind = nk == 1 ? ks[0] : ks[sym_choice("kind", nk)];
		t[i].name = names[i - first];
		if (sym_param("longnames", 0)) {
			int len = sym_choice("len", 2) ? 14 : 1;
			for (int k = 0; k < len; ++k) nm[i - first][k] = 'a' + i - first;
			nm[i - first][len] = 0;
			t[i].name = nm[i - first];
		}
		strcpy(t[i].path, t[p].path);
		if (t[i].path[strlen(t[i].path) - 1] != '/') strcat(t[i].path, "/");
		strcat(t[i].path, t[i].name);
		t[i].dir = t[p].m;
		if (t[i].kind == FILE_) t[i].m = mfs_mkfile(t[p].m, t[i].name, "");
		else if (t[i].kind == DIR_) t[i].m = mfs_mkdir(t[p].m, t[i].name);
		else t[i].m = mfs_symlink(t[p].m, t[i].name, sym_bool("t") ? "/bin" : "/nowhere");
		if (sym_param("dt", 0)) t[p].m->ent[t[p].m->nent - 1].type = 0;
		nt = i + 1;
	}
	add("bfs");
	static const char *strats[] = {"bfs", "dfs", "ids", "eds"};
	add("-S"); add(strats[strat]);
	static char jj[8];
	snprintf(jj, sizeof(jj), "-j%d", (int)sym_param("threads", 1)); add(jj);
	for (int i = 0; i < nroots; ++i) add(t[i].path);
	if (sym_param("post", 0)) add("-depth");
	bool plus = act == 1 || act == 3, dir = act == 2 || act == 3 || act == 5, ok = act >= 4;
	static const char *acts[] = {"-exec", "-exec", "-execdir", "-execdir", "-ok", "-okdir"};
	if (plus) add("-print");
	add(acts[act]);
	bool self = sym_param("selfexe", 0);
	add(self ? "{}" : "c");
	if (self) for (int i = 0; i < nt; ++i) t[i].m->mode |= 0111;
	bool wdfail = sym_param("wdfail", 0);
	if (wdfail) top->err_open = EACCES;
	int la = sym_param("ta", 0), lb = sym_param("tb", 0);
	const char *A = "x", *B = NULL;
	if (la) A = tmpl(la);
	if (plus) sym_assume(strcmp(A, "{}") != 0 && !strstr(A, "{}"));
	add(A);
	add("{}");
	if (lb) { B = tmpl(lb); sym_assume(strcmp(B, "+") != 0); add(B); }
	add(plus ? "+" : ";");
	if (!plus) add("-print");
	mproc_hook = hook;
	if (sym_param("fail", 0)) {
		failat = sym_choice("failat", nt);
		if (sym_bool("spawnfails")) { failerr = sym_u8("errno"); sym_assume((failerr == ENOENT) | (failerr == ENOMEM) | (failerr == EAGAIN) | (failerr == EACCES)); }
		else failst = sym_u16("status"), sym_assume((failst & 0xff) == 0 || ((failst & 0x7f) != 0x7f && (failst & 0x7f) != 0 && (failst >> 8) == 0));
	}
	size_t maxone = 0;
	if (sym_param("big", 0)) {
		// The kernel's real limit is lower than advertised, but every file fits on its own
		biglimit = sym_range("limit", 28, sym_param("bigmax", 90));
		for (int i = 0; i < nt; ++i) {
			size_t k = strlen("c") + 1 + strlen(A) + 1 + strlen(t[i].path) + 1 + 3 * 8;
			if (k > maxone) maxone = k;
		}
		sym_assume(maxone <= biglimit);
	}
	arglimit = sym_param("arglimit", 0);
	if (sym_param("argmax", 0)) {
		// a small advertised limit (4096 + 2048 bytes are kept in reserve)
		mproc_arg_max = 4096 + 2048 + 2 * 8 + (8 + 2) + (8 + 2) + sym_range("argmax", 0, sym_param("argmax", 0));
	}
	static char in[64];
	int ans[8] = {0};
	if (ok) {
		static const char *a[] = {"y\n", "n\n", "\n", "yes\n", "Y\n", "no\n", " y\n", "x\n"};
		int na = sym_choice("answers", nt + 1); // then end of file
		for (int i = 0; i < na; ++i) { int k = sym_choice("answer", 8); ans[i] = k == 0 || k == 3 || k == 4; strcat(in, a[k]); }
		mio_in.ibuf = in; mio_in.ilen = strlen(in);
	}
	long nofile = sym_param("nofile", 0);
	if (sym_param("softlimit", 0)) menv_nofile_cur = sym_param("softlimit", 0);
	if (nofile) { menv_nofile_cur = menv_nofile_max = nofile; mfs_nofile = nofile; }

	int ret = bfs_run(ac, av);
	mio_str(&mio_out); mio_str(&mio_err);
	for (int i = 0; i < ac; ++i) sym_note(av[i]);
	for (int i = 0; i < nt; ++i) { sym_note(t[i].path); sym_note(t[i].kind == FILE_ ? "file" : t[i].kind == DIR_ ? "dir" : "link"); }
	notes();
	sym_note_int("processes", mproc_n);
	for (int i = 0; i < mproc_n; ++i) for (int j = 0; j < mproc[i].argc; ++j) sym_note(mproc[i].argv[j]);
	split();

	SYM_ASSERT(mfs_cwd == cwd0, "the working directory is unchanged");
	for (int i = 0; i < mproc_n; ++i) {
		SYM_ASSERT(mproc[i].argc >= 3, "the command is run as given");
		if (self) {
			SYM_ASSERT(mfs_walk(mproc[i].cwd, mproc[i].exe) == mfs_walk(mproc[i].cwd, mproc[i].argv[2]), "{} as the command runs the file itself");
			continue;
		}
		SYM_ASSERT(strcmp(mproc[i].argv[0], "c") == 0, "the command is run as given");
		SYM_ASSERT(strcmp(mproc[i].exe, want_exe) == 0, "the command is found in the search path");
	}
	if (relpath && dir) {
		SYM_ASSERT(ret != 0 && mproc_n == 0 && mio_err.len, "-execdir refuses a search path with relative directories");
		sym_cover("refused");
		return;
	}
	if (!want_exe) {
		SYM_ASSERT(ret != 0 && mproc_n == 0 && mio_err.len, "a command that cannot be found is reported");
		sym_cover("notfound");
		no_leaks();
		return;
	}
	if (wdfail) {
		// The roots' directory cannot be opened: they are reported, everything below is unaffected
		for (int i = 0; i < mproc_n; ++i) for (int j = 2; j < mproc[i].argc; ++j) {
			struct mnode *m = mfs_walk(mproc[i].cwd, mproc[i].argv[j]);
			for (int k = 0; k < nt; ++k) if (t[k].m == m) { ++t[k].seen; chkdir(&mproc[i], mproc[i].argv[j], k); }
		}
		for (int i = 0; i < nt; ++i) SYM_ASSERT(t[i].seen == (t[i].dir != top), "a directory that cannot be opened affects only the files directly in it");
		SYM_ASSERT(ret != 0 && mio_err.len != 0, "the failure is reported");
		sym_cover("done");
		no_leaks();
		return;
	}
	bool failed = failat >= 0 && nspawn > failat && (failerr || !ok_status(failst));
	if (plus) {
		if (arglimit) {
			// paths too long for any command are reported and skipped, the others are unaffected
			int l = 0;
			bool any = false;
			for (int i = 0; i < nlines; ++i) if (strlen(lines[i]) > arglimit) { any = true; lines[i] = NULL; }
			for (int i = 0; i < mproc_n; ++i) for (int j = 2; j < mproc[i].argc; ++j) {
				while (l < nlines && !lines[l]) ++l;
				SYM_ASSERT(l < nlines && strcmp(lines[l], mproc[i].argv[j]) == 0, "the arguments are the selected paths in the order they were found");
				++l;
			}
			while (l < nlines && !lines[l]) ++l;
			SYM_ASSERT(l == nlines, "a path that does not fit affects only itself");
			SYM_ASSERT((ret != 0) == any && (mio_err.len != 0) == any, "a path that does not fit is reported");
			if (any) sym_cover("failed");
			sym_cover("done");
			no_leaks();
			return;
		}
		// every file printed; every file in exactly one command unless its command could not start
		SYM_ASSERT(nlines == nt, "the action is always true and visits every file");
		int l = 0, lost = 0;
		for (int i = 0; i < mproc_n; ++i) {
			SYM_ASSERT(strcmp(mproc[i].argv[1], A) == 0, "fixed arguments are passed unchanged");
			for (int j = 2; j < mproc[i].argc; ++j) {
				const char *arg = mproc[i].argv[j];
				// skip the batch whose spawn failed
				int k = -1;
				if (dir) {
					int f = -1;
					for (; l < nlines; ++l, ++lost) {
						f = find(lines[l]);
						const char *s = strrchr(t[f].path, '/');
						const char *want = s && s[1] ? s + 1 : t[f].path;
						if (t[f].path[strlen(t[f].path) - 1] == '/') { want = arg + 2; }
						if (strcmp(arg + 2, want) == 0 && mfs_walk(mproc[i].cwd, arg) == t[f].m) break;
						if (!nfailed) break;
					}
					SYM_ASSERT(l < nlines, "commands receive only selected files, in order");
					k = f;
					chkdir(&mproc[i], arg, k);
				} else {
					while (l < nlines && nfailed && strcmp(lines[l], arg) != 0) ++l, ++lost;
					SYM_ASSERT(l < nlines && strcmp(lines[l], arg) == 0, "the arguments are the selected paths in the order they were found");
					k = find(arg);
				}
				++t[k].seen;
				++l;
			}
		}
		for (int i = 0; i < nt; ++i) {
			SYM_ASSERT(t[i].seen <= 1, "no file is passed twice");
			if (!nfailed) SYM_ASSERT(t[i].seen == 1, "every selected file is passed to a command");
		}
		for (int i = 0; i < mproc_n; ++i) SYM_ASSERT(mproc[i].total <= mproc_arg_max, "no command line exceeds the limit");
		if (!dir && !biglimit && failat < 0 && !sym_param("argmax", 0)) SYM_ASSERT(mproc_n == 1, "files are gathered into as few commands as fit");
		SYM_ASSERT((ret != 0) == failed, "the exit status is nonzero exactly when a command failed");
		if (failed && failerr) SYM_ASSERT(mio_err.len != 0, "failures to run a command are reported");
		if (!failed) SYM_ASSERT(mio_err.len == 0, "nothing is reported without a failure");
	} else {
		// each file: one command; -print only after success
		int l = 0, q = 0, nok = 0;
		bool eof = false;
		SYM_ASSERT(ok || mproc_n + nfailed == nt, "one command per file");
		for (int i = 0; i < mproc_n; ++i) {
			SYM_ASSERT(mproc[i].argc == 3 + !!B, "the number of arguments is preserved");
			const char *arg = mproc[i].argv[2];
			int k = -1;
			if (dir) {
				for (int f = 0; f < nt; ++f) if (mfs_walk(mproc[i].cwd, arg) == t[f].m) k = f;
				SYM_ASSERT(k >= 0, "relative to the command's working directory, the argument names a selected file");
				chkdir(&mproc[i], arg, k);
			} else {
				k = find(arg);
				SYM_ASSERT(k >= 0, "the argument is the path of a selected file");
			}
			++t[k].seen;
			subst(A, arg);
			SYM_ASSERT(strcmp(exp_, mproc[i].argv[1]) == 0, "every {} is replaced, and nothing else");
			if (B) { subst(B, arg); SYM_ASSERT(strcmp(exp_, mproc[i].argv[3]) == 0, "every {} is replaced, and nothing else"); }
			if (ok_status(mproc[i].status)) {
				SYM_ASSERT(l < nlines && find(lines[l]) == k, "the action is true when the command succeeds");
				++l;
			}
		}
		SYM_ASSERT(l == nlines, "the action is false when the command fails or does not run");
		for (int i = 0; i < nt; ++i) SYM_ASSERT(t[i].seen <= 1, "a file is passed to one command only");
		if (ok) {
			for (int i = 0; i < nt; ++i) nok += ans[i];
			SYM_ASSERT(mproc_n + nfailed == nok, "a command runs exactly when the answer is affirmative");
		}
		SYM_ASSERT((ret != 0) == (nfailed != 0), "the exit status is nonzero exactly when a command could not be run");
		if (nfailed) SYM_ASSERT(mio_err.len != 0, "failures to run a command are reported");
		if (!failed && !ok) SYM_ASSERT(mio_err.len == 0, "nothing is reported without a failure");
	}
	if (mproc_n) sym_cover("ran");
	if (failed) sym_cover("failed");
	if (plus && mproc_n > 1) sym_cover("split");
	sym_cover("done");
	no_leaks();
}
