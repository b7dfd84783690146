// Starting points: all of them, as spelled, in order, wherever they come from.
#include "common.h"
#include <stdio.h>

static const char *av[32];
static int ac;
static void add(const char *s) { av[ac++] = s; }
static char want[512];
static size_t nwant;
static int nmiss;
static void say(const char *s, size_t n) { memcpy(want + nwant, s, n); nwant += n; }

// What a path leads to: NULL if it does not exist
static struct mnode *lookup(const char *p) {
	if (!*p) return NULL;
	struct mnode *m = *p == '/' ? mfs_root : mfs_cwd;
	while (*p) {
		if (*p == '/') { if (!S_ISDIR(m->mode)) return NULL; ++p; continue; }
		size_t n = 0;
		while (p[n] && p[n] != '/') ++n;
		if (!S_ISDIR(m->mode)) return NULL;
		struct mnode *c = NULL;
		if (n == 1 && p[0] == '.') c = m;
		else for (int i = 0; i < m->nent; ++i) {
			const char *e = m->ent[i].name;
			if (strlen(e) == n && memcmp(e, p, n) == 0) c = m->ent[i].node;
		}
		if (!c) return NULL;
		m = c;
		p += n;
	}
	return m;
}

enum { MAXR = 8 };
static const char *root[MAXR];
static int nroot;
static void expect(void) {
	// breadth first: the starting points in order, then what is in them
	for (int i = 0; i < nroot; ++i) {
		if (lookup(root[i])) say(root[i], strlen(root[i]) + 1);
		else nmiss++;
	}
	for (int i = 0; i < nroot; ++i) {
		struct mnode *m = lookup(root[i]);
		if (!m || !S_ISDIR(m->mode)) continue;
		for (int j = 0; j < m->nent; ++j) {
			size_t n = strlen(root[i]);
			say(root[i], n);
			if (root[i][n - 1] != '/') say("/", 1);
			say(m->ent[j].name, strlen(m->ent[j].name) + 1);
		}
	}
}
static void judge(int ret) {
	mio_str(&mio_out);
	mio_str(&mio_err);
	notes();
	SYM_ASSERT(mio_out.len == nwant, "exactly the starting points and their contents are printed");
	SYM_ASSERT(memcmp(mio_out.buf, want, nwant) == 0, "starting points are searched in order and printed as spelled");
	SYM_ASSERT((ret != 0) == (nmiss > 0), "the exit status tells whether a starting point was missing");
	SYM_ASSERT((mio_err.len > 0) == (nmiss > 0), "a missing starting point is reported");
	if (nmiss) sym_cover("missing");
	if (nwant) sym_cover("printed");
	sym_cover("done");
	no_leaks();
}
static void refused(int ret) {
	mio_str(&mio_out);
	mio_str(&mio_err);
	notes();
	SYM_ASSERT(ret != 0 && mio_err.len > 0, "the command line is rejected with a message");
	SYM_ASSERT(mio_out.len == 0, "nothing is printed");
	sym_cover("rejected");
	no_leaks();
}

void harness(void) {
	world();
	int mode = sym_param("mode", 0), len = sym_param("len", 3);
	struct mnode *a = mfs_mkdir(mfs_cwd, "a");
	mfs_mkfile(a, "k", "");
	add("bfs");
	add("-j1");
	static const char *strats[] = {"bfs", "ids"};
	if (sym_param("strat", 0)) { add("-S"); add(strats[sym_param("strat", 0)]); }
	if (mode == 0) {
		// arguments
		static const char *odd[] = {"-", ")", ",", "b", "-x", "!", "(", "--", "-print", "\xff\n"};
		for (int i = 0; i < 10; ++i) mfs_mkfile(mfs_cwd, odd[i], "");
		static const char *names[] = {"a", "-", ")", ",", "b", "a/", "./a", "a//", "zz", "", "\xff\n", "-x", "!", "(", "--", "-print", "b/", "/w/a"};
		int lay = sym_param("lay", 0);
		// layouts: which of the names stand for themselves in this place
		static const char *lays[][14] = {
			{"@", "@", "-print0"}, {"-print0", "+", "+"}, {"@", "-print0", "+"}, {"-f", "#", "@", "-print0"}, {"-f", "#", "-f", "#", "-print0"}, {"--", "@", "@", "-print0"},
			{"@", "--", "@", "-print0"}, {"-true", "+", "(", "+", "-print0", "+", ")"}, {"-true", "-o", "+", "-false", ",", "+", "-print0"}, {"-print0", "-f", "#", "+"}, {"!", "+", "-print0", "+"}, {"-print0"}, {"-true", "--", "-print0", "--"},
			{"@", "-f", "#", "@", "-print0"},
		};
		for (int i = 0; lays[lay][i]; ++i) {
			char c = lays[lay][i][0];
			if (lays[lay][i][1] || (c != '@' && c != '+' && c != '#')) { add(lays[lay][i]); continue; }
			const char *s = names[sym_choice("name", c == '#' ? 18 : c == '@' ? 13 : 11)];
			if (c == '@') sym_assume(strcmp(s, "!") != 0 && strcmp(s, "-x") != 0);
			if (c == '+') sym_assume(strcmp(s, ")") != 0 && strcmp(s, ",") != 0);
			add(s);
			root[nroot++] = s;
		}
		if (!nroot) root[nroot++] = ".";
		if (lay >= 11 && lay <= 12) { // the whole working directory, breadth first
			say(".", 2);
			for (int i = 0; i < mfs_cwd->nent; ++i) { say("./", 2); say(mfs_cwd->ent[i].name, strlen(mfs_cwd->ent[i].name) + 1); }
			say("./a/k", 6);
		} else expect();
		judge(bfs_run(ac, av));
		return;
	}
	// a list of NUL-terminated names
	static char list[16], copy[17];
	for (int i = 0; i < len; ++i) {
		uint8_t c = sym_u8("c");
		sym_assume((c == 'a') | (c == '/') | (c == 0) | (c == 'k') | (c == '-') | (c == '\n') | (c == '.'));
		list[i] = sym_concretize(c);
	}
	memcpy(copy, list, len);
	if (sym_param("odd", 1)) { mfs_mkfile(mfs_cwd, "-", ""); mfs_mkfile(mfs_cwd, "\n", ""); mfs_mkfile(mfs_cwd, "--", ""); }
	for (int i = 0; i < len; ) {
		root[nroot++] = copy + i;
		const char *r = copy + i;
		sym_assume(r[0] != '/'); // not the whole file system
		for (const char *d = r; *d; ++d) sym_assume(!(d[0] == '.' && (d == r || d[-1] == '/') && (!d[1] || d[1] == '/') && d == r)); // nor the working directory
		for (const char *d = r; *d; ++d) sym_assume(!(d[0] == '.' && d[1] == '.'));
		i += strlen(r) + 1;
	}
	const char *from = "L";
	if (mode == 2 || mode == 4) { from = "-"; mio_in.ibuf = list; mio_in.ilen = len; }
	else {
		struct mnode *l = mfs_mkfile(mfs_cwd, "L", "");
		l->data = list;
		l->len = len;
	}
	int fail = 0;
	switch (mode) {
	case 1: case 2: add("-files0-from"); add(from); add("-print0"); break;
	case 3: add("-print0"); add("-files0-from"); add("nowhere"); add("-files0-from"); add(from); break; // the last one counts
	case 4: { int k = sym_choice("bad", 4); fail = 1;
		if (k == 0) { add("a"); add("-files0-from"); add(from); add("-print0"); }
		if (k == 1) { add("-files0-from"); add(from); add("-print0"); add("a"); }
		if (k == 2) { add("-files0-from"); add(from); add("-f"); add("a"); add("-print0"); }
		if (k == 3) { add("-files0-from"); add(from); add("-print0"); add("-ok"); add("x"); add(";"); }
		break; }
	case 5: { int k = sym_choice("bad", 3); fail = 1; // the list cannot be read
		if (k == 0) { add("-files0-from"); add("nowhere"); add("-print0"); }
		if (k == 1) { add("-files0-from"); add("a"); add("-print0"); }
		if (k == 2) { add("-files0-from"); add("L"); add("-print0"); mio_read_fail = sym_choice("at", len + 1); mio_read_fail++; }
		break; }
	}
	int ret = bfs_run(ac, av);
	if (fail) { refused(ret); return; }
	expect();
	judge(ret);
}
