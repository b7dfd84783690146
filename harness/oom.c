// Running out of memory at any allocation: either nothing changes, or the
// failure is reported and the exit status says so.
#include "common.h"

extern int mem_armed, mem_persist, mem_failed, mem_count, mem_skip;
static int mem_armed_next;
static const char *av[24];
static int ac;
static void add(const char *s) { av[ac++] = s; }
static void run_tree(void) {
	struct mnode *d = mfs_mkdir(mfs_cwd, "d");
	struct mnode *x = mfs_mkdir(d, "x");
	mfs_mkfile(d, "a", "");
	static const char *more[] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"};
	for (int i = 0; i < sym_param("more", 0); ++i) (i & 1 ? (void)mfs_mkdir(d, more[i]) : (void)mfs_mkfile(d, more[i], ""));
#ifdef BUDGET
	extern int mioq_budget;
	mioq_budget = mem_armed_next ? sym_param("budget", 0) : 0;
#endif
	mfs_mkfile(x, "z.c", "");
	mfs_mkdir(x, "y");
	mfs_symlink(x, "l", "../a");
	mfs_mkfile(mfs_mkdir(mfs_root, "bin"), "c", "")->mode = S_IFREG | 0755;
	mfs_mkfile(mfs_cwd, "out", "");
	menv_users[0].name = "third";
	menv_vars[0][0] = "PATH";
	menv_vars[0][1] = "/bin";
	if (sym_param("numeric", 0)) menv_nusers = menv_ngroups = 0;
}
static char *want;
static size_t nwant;
static char *find(const char *line, size_t n) {
	for (size_t i = 0; i + n <= nwant; ++i) if ((i == 0 || want[i - 1] == '\n') && memcmp(want + i, line, n) == 0) return want + i;
	return NULL;
}
void harness(void) {
	static const char *cmds[][10] = {
		{"d"},
		{"d", "-depth"},
		{"-s", "d"},
		{"-Sdfs", "d", "-name", "*z*"},
		{"-Sids", "d"},
		{"-Seds", "d", "-depth"},
		{"-L", "d", "-unique"},
		{"d", "-size", "-5k", "-o", "-type", "l"},
		{"d", "-printf", "%p %h %s %m %l %P\\n"},
		{"d", "-fprint", "out", "-print"},
		{"d", "-regex", ".*"},
		{"-color", "d"},
		{"d", "-ls"},
		{"d", "-exec", "c", "{}", "+"},
		{"d", "-execdir", "c", "{}", ";"},
		{"d", "-execdir", "c", "{}", "+"},
		{"-s", "-Sids", "d", "-print0"},
		{"-S", "dfs", "-s", "d", "-print"},
		{"d", "-newermt", "2020-01-01", "-o", "-print"},
		{"d", "-user", "third", "-o", "-perm", "u+r", "-a", "-print"},
		{"-color", "d", "-printf", "%p %l\\n"},
		{"d", "-ok", "c", "{}", ";"},
		{"-x", "d", "-mindepth", "1", "-maxdepth", "2"},
		{"d", "-empty", "-o", "-name", "z*"},
		{"d", "-fprintf", "out", "%p\\n", "-fprint0", "out"},
		{"-f", "d", "-exclude", "-name", "x"},
		{"d", "-samefile", "d/a", "-o", "-newer", "d/a", "-o", "-print"},
		{"-D", "opt", "d"},
		{"d", "-fstype", "x", "-o", "-print"},
		{"-H", "d", "-printx"},
		{"d", "-delete"},
	};
	world();
	run_tree();
	int c = sym_param("cmd", 0);
	add("bfs");
	add(sym_param("threads", 1) > 1 ? "-j2" : "-j1");
	for (int i = 0; i < 10 && cmds[c][i]; ++i) add(cmds[c][i]);
	int r0 = bfs_run(ac, av);
	mio_str(&mio_out);
	nwant = mio_out.len;
	want = mos_alloc(nwant + 1);
	memcpy(want, mio_out.buf, nwant + 1);
	size_t f0 = 0;
	int p0 = mproc_n;
	SYM_ASSERT(r0 == 0, "the command works");

	int u0 = mfs_nunlink;
	if (mio_nfiles) f0 = mio_files[0]->len;
	world();
	mem_armed_next = 1;
	run_tree();
	mproc_n = mfs_nunlink = 0;
	mem_persist = sym_param("persist", 0);
	mem_armed = 1;
	int r = bfs_run(ac, av);
	mem_armed = 0;
	mio_str(&mio_out);
	mio_str(&mio_err);
	notes();
	sym_note_int("allocation", mem_count - 1);
	if (!mem_failed) { sym_cover("nofail"); return; }
	if (r == 0) {
		SYM_ASSERT(mio_out.len == nwant, "output is complete if the exit status is 0");
		SYM_ASSERT(sym_param("threads", 1) > 1 || memcmp(mio_out.buf, want, nwant) == 0, "output is right if the exit status is 0");
		SYM_ASSERT(mproc_n == p0, "every command is run if the exit status is 0");
		if (f0) SYM_ASSERT(mio_nfiles && mio_files[0]->len == f0, "output files are complete if the exit status is 0");
		SYM_ASSERT(mfs_nunlink == u0, "everything is deleted if the exit status is 0");
		sym_cover("unaffected");
	} else {
		SYM_ASSERT(r != 0 && mio_err.len > 0, "running out of memory is reported");
		sym_cover("reported");
		// whatever is printed is right
		char *s = mio_out.buf, *e = s + mio_out.len;
		if (sym_param("lines", 1)) while (s < e) {
			char *q = s;
			while (q < e && *q != '\n') ++q;
			SYM_ASSERT(q < e, "output lines are complete");
			SYM_ASSERT(find(s, q + 1 - s), "nothing wrong is printed");
			s = q + 1;
		}
	}
	no_leaks();
}
