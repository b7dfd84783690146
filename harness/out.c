// Output actions: exact bytes, shared files, write failures, -ls, terminals
// and messages.
#include "common.h"
#include <errno.h>
#include <stdio.h>

static char want[2048];
static int nwant;
static void put(char c) { want[nwant++] = c; }
static void puts_(const char *s) { while (*s) put(*s++); }
static void same(const char *buf, size_t len, const char *msg) {
	__sym_assert((int)len == nwant, msg);
	bool ok = true;
	for (int i = 0; i < nwant; ++i) ok &= buf[i] == want[i];
	__sym_assert(ok, msg);
}
static char *symname(char *p, int n, bool slash) {
	for (int i = 0; i < n; ++i) {
		p[i] = sym_u8("name");
		sym_assume(p[i] != 0);
		if (!slash) sym_assume(p[i] != '/');
	}
	p[n] = 0;
	return p;
}

// ---------------------------------------------------------------- names
static void name_mode(void) {
	struct mnode *d = mfs_mkdir(mfs_cwd, "d");
	static char name[8];
	int n = sym_param("len", 2);
	symname(name, n, false);
	sym_assume(!(n == 1 && name[0] == '.'));
	sym_assume(!(n == 2 && name[0] == '.' && name[1] == '.'));
	struct mnode *f = mfs_mkfile(d, name, "");
	(void)f;
	mfs_mkfile(mfs_cwd, "o", "old contents");
	int act = sym_param("action", 0), r = 0;
	bool file = false;
	switch (act) {
	case 0: r = RUN("-j1", "d", "-mindepth", "1"); break;
	case 1: r = RUN("-j1", "d", "-mindepth", "1", "-print"); break;
	case 2: r = RUN("-j1", "d", "-mindepth", "1", "-print0"); break;
	case 3: r = RUN("-j1", "d", "-mindepth", "1", "-printx"); break;
	case 4: r = RUN("-j1", "d", "-mindepth", "1", "-fprint", "o"); file = true; break;
	case 5: r = RUN("-j1", "d", "-mindepth", "1", "-fprint0", "o"); file = true; break;
	case 6: r = RUN("-j1", "d", "-mindepth", "1", "-fprintf", "o", "%p/%f"); file = true; break;
	case 7: menv_isatty = 7; r = RUN("-j1", "-nocolor", "d", "-mindepth", "1"); break;
	case 8: menv_isatty = 2; menv_vars[0][0] = "NO_COLOR"; menv_vars[0][1] = "1"; r = RUN("-j1", "d", "-mindepth", "1"); break;
	case 9: menv_isatty = 7; r = RUN("-j1", "-color", "d", "-mindepth", "1", "-fprint", "o"); file = true; break;
	case 10: menv_isatty = 7; r = RUN("-j1", "-color", "d", "-mindepth", "1", "-print0"); break;
	}
	notes();
	SYM_ASSERT(r == 0, "exit status 0 without errors");
	puts_("d/");
	for (int i = 0; i < n; ++i) {
		char c = name[i];
		if (act == 3 && (c == ' ' || c == '\t' || c == '\n' || c == '\\' || c == '$' || c == '\'' || c == '"' || c == '`')) put('\\');
		put(c);
	}
	if (act == 6) { put('/'); puts_(name); }
	else put(act == 2 || act == 5 || act == 10 ? 0 : '\n');
	if (file) {
		struct mnode *o = mfs_lookup("o");
		SYM_ASSERT(o && o->data, "the output file exists");
		same(o->data, o->len, "the output file contains exactly the path and the terminator");
		SYM_ASSERT(mio_out.len == 0, "nothing is printed to the standard output");
	} else {
		same(mio_out.buf, mio_out.len, "the output is exactly the path and the terminator");
	}
	no_leaks();
	sym_cover("done");
}

// ---------------------------------------------------------------- failures
static const char *cmds[][12] = {
	{"d", "-print", "-fprint", "o"},
	{"d", "-ls", "-fprint0", "o"},
	{"d", "-print0", "-exec", "c", ";", "-fprintf", "o", "%p\\n"},
	{"d", "-printx", "-fls", "o"},
	{"d", "-printf", "%p %s\\n", "-exec", "c", ";", "-fprint", "o"},
	{"d", "-fprint", "o", "-fprint", "./o", "-print", "-delete"},
	{"d", "-print", "-fprint", "o", "-quit"},
	{"-color", "d", "-print", "-fprint", "o"},
	{"d", "-fprint", "/dev/stdout", "-fprint", "o"},
};
static struct mnode *tree(void) {
	struct mnode *d = mfs_mkdir(mfs_cwd, "d");
	mfs_mkfile(d, "a b", "");
	struct mnode *o = mfs_mkfile(mfs_cwd, "o", "");
	mfs_mkfile(mfs_mkdir(mfs_root, "bin"), "c", "")->mode = S_IFREG | 0755;
	menv_vars[0][0] = "PATH";
	menv_vars[0][1] = "/bin";
	struct mnode *dev = mfs_mkdir(mfs_root, "dev");
	mfs_add(dev, "stdout", mfs_fd[1].node);
	mfs_add(dev, "stderr", mfs_fd[2].node);
	return o;
}
static void fail_mode(void) {
	world();
	tree();
	const char *av[16] = {"bfs", "-j1"};
	int ac = 2, c = sym_param("cmd", 0);
	for (int i = 0; i < 12 && cmds[c][i]; ++i) av[ac++] = cmds[c][i];
	int r0 = bfs_run(ac, av);
	SYM_ASSERT(r0 == 0, "the command works");
	mio_str(&mio_out);
	int n0 = mio_out.len;
	char *b0 = mos_alloc(n0 + 1);
	memcpy(b0, mio_out.buf, n0);
	SYM_ASSERT(mio_nfiles >= 1, "an output file is written");
	struct mnode *o = mfs_lookup("o");
	int n1 = o->len;
	char *b1 = mos_alloc(n1 + 1);
	memcpy(b1, o->data, n1);
	world();
	o = tree();
	mproc_n = 0;
	int which = sym_choice("stream", 2);
	int what = sym_choice("what", which ? 3 : 2); // at the flush, at once, at the close
	static const int errs[] = {ENOSPC, EIO, EPIPE, EBADF};
	int err = errs[sym_choice("error", 4)];
	long lim = sym_range("limit", 0, which ? n1 : n0);
	int extern_close = 0;
	if (which == 0) {
		mio_out.limit = lim;
		mio_out.limit_err = err;
		mio_out.eager = what == 1;
	} else if (what < 2) {
		extern bool mio_new_eager;
		mio_new_limit = lim;
		mio_new_err = err;
		mio_new_eager = what == 1;
	} else {
		extern int mio_new_close;
		mio_new_close = err;
		extern_close = 1;
	}
	int r = bfs_run(ac, av);
	mio_new_limit = -1;
	mio_str(&mio_out);
	mio_str(&mio_err);
	notes();
	bool failed = extern_close || lim < (which ? n1 : n0);
	if (failed) {
		SYM_ASSERT(r != 0, "a failure to write makes the exit status nonzero");
		SYM_ASSERT(mio_err.len > 0, "a failure to write is reported");
		sym_cover("failed");
	} else {
		SYM_ASSERT(r == 0, "exit status 0 without errors");
		SYM_ASSERT(mio_err.len == 0, "nothing is reported without errors");
		sym_cover("fits");
	}
	if (which || !failed) SYM_ASSERT((int)mio_out.len == n0 && memcmp(mio_out.buf, b0, n0) == 0, "the standard output is not affected by another file's failure");
	if (!which || !failed || extern_close) SYM_ASSERT((int)o->len == n1 && memcmp(o->data, b1, n1) == 0, "the output file is not affected by another file's failure");
	no_leaks();
}

// ---------------------------------------------------------------- sharing
static void share_mode(void) {
	struct mnode *o = tree(), *q = mfs_mkfile(mfs_cwd, "q", "longer old contents that must go away");
	mfs_add(mfs_cwd, "h", o);
	mfs_symlink(mfs_cwd, "s", "d/../o");
	static const char *names[] = {"o", "./o", "h", "s", "/w/q", "/dev/stdout", "new", "/dev/stderr"};
	static const int file[] = {0, 0, 0, 0, 1, 2, 3, 4};
	int k = sym_param("files", 3), a[3];
	char exp[5][160];
	memset(exp, 0, sizeof(exp));
	for (int i = 0; i < 3; ++i) a[i] = i < k ? sym_choice("file", 8) : 0;
	static const char *S[] = {"-print", "-ls"};
	(void)S;
	int r = RUN("-j1", "-s", "d", "-fprint", names[a[0]], "-print", "-fprintf", names[a[1]], "1%p\\n", "-fprintf", names[a[2]], "2%f\\n");
	notes();
	static const char *paths[] = {"d", "d/a b"}, *bases[] = {"d", "a b"};
	for (int i = 0; i < 2; ++i) {
		char *e = exp[file[a[0]]];
		strcat(e, paths[i]); strcat(e, "\n");
		e = exp[2];
		strcat(e, paths[i]); strcat(e, "\n");
		e = exp[file[a[1]]];
		strcat(e, "1"); strcat(e, paths[i]); strcat(e, "\n");
		e = exp[file[a[2]]];
		strcat(e, "2"); strcat(e, bases[i]); strcat(e, "\n");
	}
	SYM_ASSERT(r == 0, "exit status 0 without errors");
	SYM_ASSERT(strcmp(mio_out.buf, exp[2]) == 0, "everything written to the standard output appears there in order");
	SYM_ASSERT(strcmp(mio_err.buf, exp[4]) == 0, "everything written to the standard error appears there in order");
	struct mnode *f[4] = {o, q, NULL, mfs_lookup("new")};
	bool named[5] = {0};
	for (int i = 0; i < 3; ++i) named[file[a[i]]] = true;
	for (int i = 0; i < 4; ++i) if (i != 2 && named[i]) {
		SYM_ASSERT(f[i], "the file is created");
		SYM_ASSERT(f[i]->len == strlen(exp[i]) && memcmp(f[i]->data, exp[i], f[i]->len) == 0, "actions that share a file write to it in order");
	}
	if (!named[1]) SYM_ASSERT(q->len == 37, "other files are not changed");
	no_leaks();
	sym_cover("done");
}

// ---------------------------------------------------------------- -ls
static char *tok(char **p) {
	while (**p == ' ') ++*p;
	char *s = *p;
	while (**p && **p != ' ' && **p != '\n') ++*p;
	return s;
}
static uint64_t number(char **p) {
	char *s = tok(p);
	SYM_ASSERT(s < *p, "a number is printed");
	uint64_t v = 0;
	bool ok = true;
	for (char *c = s; c < *p; ++c) { ok &= (unsigned char)(*c - '0') < 10; v = v * 10 + (*c - '0'); }
	SYM_ASSERT(ok, "numbers are decimal");
	return v;
}
static void word(char **p, const char *w) {
	char *s = tok(p);
	SYM_ASSERT((size_t)(*p - s) == strlen(w), "the field has the right length");
	bool ok = true;
	for (size_t i = 0; w[i]; ++i) ok &= s[i] == w[i];
	SYM_ASSERT(ok, "the field is right");
}
static void ls_mode(void) {
	static const unsigned fm[] = {S_IFREG, S_IFLNK, S_IFCHR, S_IFBLK, S_IFDIR};
	struct mnode *d = mfs_mkdir(mfs_cwd, "d");
	struct mnode *f = mfs_mkfile(d, "x y", "");
	int field = sym_param("field", 0);
	int k = field == 0 ? sym_param("type", 0) : field == 4 ? (sym_choice("type", 2) ? 4 : 0) : sym_choice("type", 5);
	unsigned m = 0644;
	if (field == 0) m = sym_u16("mode") & 07777;
	f->mode = fm[k] | m;
	d->ent[0].type = fm[k] >> 12;
	if (k == 1) f->target = "to where";
	f->size = 8;
	menv_now = (struct timespec){1700000000, 5};
	f->mtime = (struct timespec){1699999999, 1};
	f->uid = 1000; f->gid = 7;
	if (field == 1) f->ino = sym_u64("inode");
	if (field == 2) f->blocks = sym_u64("blocks") >> 10;
	if (field == 3) f->nlink = sym_u32("links");
	if (field == 4) f->size = sym_u64("size") >> 1;
	if (field == 5) { f->rdev_major = sym_u32("major") & 0xfff; f->rdev_minor = sym_u32("minor") & 0xfffff; }
	if (field == 6) { f->uid = sym_u32("uid"); sym_assume(f->uid != 0 && f->uid != 1000); }
	if (field == 7) { f->gid = sym_u32("gid"); sym_assume(f->gid != 0 && f->gid != 1000); }
	static const char *days[] = {"Nov 14", "May 18", "May 17", "Nov 15", "Nov 16", "Jan 1"};
	static const int64_t day0[] = {1699920000, 1684368000, 1684281600, 1700006400, 1700092800, 0};
	static const char *years[] = {"2023", "2023", "2023", "2023", "2023", "1970"};
	int dk = 0;
	int64_t sod = 0;
	if (field == 8) {
		dk = sym_choice("day", 6);
		sod = sym_u32("second");
		sym_assume(sod >= 0 && sod < 86400);
		f->mtime.tv_sec = day0[dk] + sod;
	}
	int px = sym_param("posix", 0);
	if (px) { menv_vars[0][0] = "POSIXLY_CORRECT"; menv_vars[0][1] = "1"; }
	bool named = field != 6;
	int r = RUN("-j1", "d", "-mindepth", "1", "-ls");
	notes();
	SYM_ASSERT(r == 0, "exit status 0 without errors");
	char *p = mio_out.buf;
	SYM_ASSERT(number(&p) == f->ino, "the inode number is printed");
	SYM_ASSERT(number(&p) == (px ? f->blocks : f->blocks / 2 + f->blocks % 2), "the number of blocks is printed");
	char e[12];
	int n = 0;
	e[n++] = "-lcbd"[k];
	for (int i = 0; i < 3; ++i) {
		unsigned b = m >> (6 - 3 * i);
		bool sp = m & (04000 >> i), x = b & 1;
		e[n++] = b & 4 ? 'r' : '-';
		e[n++] = b & 2 ? 'w' : '-';
		e[n++] = sp ? (i == 2 ? (x ? 't' : 'T') : (x ? 's' : 'S')) : (x ? 'x' : '-');
	}
	e[n] = 0;
	word(&p, e);
	SYM_ASSERT(number(&p) == f->nlink, "the number of links is printed");
	if (named) word(&p, "user"); else SYM_ASSERT(number(&p) == f->uid, "the owner is printed");
	SYM_ASSERT(number(&p) == f->gid, "the group is printed");
	if (k == 2 || k == 3) {
		char *s = tok(&p);
		SYM_ASSERT(p > s + 1 && p[-1] == ',', "device numbers are printed");
		uint64_t v = 0;
		bool ok = true;
		for (char *c = s; c < p - 1; ++c) { ok &= (unsigned char)(*c - '0') < 10; v = v * 10 + (*c - '0'); }
		SYM_ASSERT(ok && v == f->rdev_major, "the major number is printed");
		SYM_ASSERT(number(&p) == f->rdev_minor, "the minor number is printed");
	} else {
		SYM_ASSERT(number(&p) == f->size, "the size is printed");
	}
	char mon[8];
	memcpy(mon, days[dk], 3);
	mon[3] = 0;
	word(&p, mon);
	word(&p, days[dk] + 4);
	// recent files show the time of day, others the year
	int64_t t = f->mtime.tv_sec, now = menv_now.tv_sec;
	bool recent = t > now - 6 * 30 * 86400 && t < now + 86400;
	if (field != 8) {
		word(&p, "22:13");
	} else if (recent) {
		char *s = tok(&p);
		SYM_ASSERT(p - s == 5 && s[2] == ':', "the time of day is printed");
		int v = ((s[0] - '0') * 10 + s[1] - '0') * 60 + (s[3] - '0') * 10 + s[4] - '0';
		SYM_ASSERT(v == (int)sod / 60, "the time of day is right");
		sym_cover("recent");
	} else {
		word(&p, years[dk]);
		sym_cover("old");
	}
	const char *tail = k == 1 ? " d/x y -> to where\n" : " d/x y\n";
	SYM_ASSERT(strcmp(p, tail) == 0, "the path and the link target are printed");
	no_leaks();
	sym_cover("done");
}

// ---------------------------------------------------------------- messages
// What a POSIX shell (with $'...') makes of a word; -1: it is not one plain word.
static int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static char sh[64];
static int shell(const char *s, int n) {
	int k = 0, i = 0;
	if (n == 0) return -1;
	while (i < n) {
		char c = s[i];
		if (c == '\'') {
			for (++i; ; ++i) { if (i >= n) return -1; if (s[i] == '\'') break; sh[k++] = s[i]; }
			++i;
		} else if (c == '"') {
			for (++i; ; ++i) {
				if (i >= n) return -1;
				if (s[i] == '"') break;
				if (s[i] == '$' || s[i] == '`' || s[i] == '!') return -1;
				if (s[i] == '\\' && i + 1 < n && (s[i + 1] == '$' || s[i + 1] == '`' || s[i + 1] == '"' || s[i + 1] == '\\')) ++i;
				sh[k++] = s[i];
			}
			++i;
		} else if (c == '$' && i + 1 < n && s[i + 1] == '\'') {
			for (i += 2; ; ++i) {
				if (i >= n) return -1;
				if (s[i] == '\'') break;
				if (s[i] != '\\') { sh[k++] = s[i]; continue; }
				if (++i >= n) return -1;
				switch (s[i]) {
				case 'a': sh[k++] = '\a'; break;
				case 'b': sh[k++] = '\b'; break;
				case 'e': sh[k++] = 27; break;
				case 'f': sh[k++] = '\f'; break;
				case 'n': sh[k++] = '\n'; break;
				case 'r': sh[k++] = '\r'; break;
				case 't': sh[k++] = '\t'; break;
				case 'v': sh[k++] = '\v'; break;
				case '\'': case '"': case '\\': sh[k++] = s[i]; break;
				case 'x': {
					int v = 0, nd = 0;
					while (nd < 2 && i + 1 < n && hexval(s[i + 1]) >= 0) { v = v * 16 + hexval(s[++i]); ++nd; }
					if (!nd) return -1;
					sh[k++] = v;
					break;
				}
				default: return -1;
				}
			}
			++i;
		} else if (c == '\\') {
			if (++i >= n) return -1;
			sh[k++] = s[i++];
		} else {
			for (const char *q = "|&;<>()$`\" \t\n*?["; *q; ++q) if (c == *q) return -1;
			if (i == 0 && (c == '#' || c == '~')) return -1;
			if (c == '=' || c == '{' || c == '}' || c == '!') return -1; // assignments, braces, history
			sh[k++] = c;
			++i;
		}
	}
	return k;
}
static void message_mode(void) {
	static char name[16];
	int n = sym_param("len", 2);
	static const char *pre[] = {"", "z", "a'", "\xc3", "a b", "\x01", "'$", "\xe2\x82"};
	strcpy(name, pre[sym_param("pre", 0)]);
	int np = strlen(name);
	symname(name + np, n, true);
	if (sym_param("alpha", 0)) for (int i = 0; i < n; ++i) {
		bool in = false;
		for (const char *q = "a4'\"\\$`! \n\x1b\x7f~*\xc3\xa9\x80\xff#="; *q; ++q) in |= name[np + i] == *q;
		sym_assume(in);
	}
	static const char *post[] = {"", "a", "'", "4F", "\xa9", "$x", "\n"};
	strcat(name, post[sym_param("post", 0)]);
	n = strlen(name);
	int tty = sym_param("tty", 0), how = sym_param("how", 0);
	if (tty) { menv_isatty = 7; menv_vars[0][0] = "NO_COLOR"; menv_vars[0][1] = "1"; }
	mfs_mkdir(mfs_cwd, "d");
	const char *pr, *tail;
	int r;
	if (how == 0) { // the command line in an error message
		if (tty) sym_assume(name[n - 1] != 92); // avoid a warning
		r = RUN("-j1", "d", "-name", name, "-newerqq", "d");
		pr = "bfs: error: bfs -j1 d -name ";
		tail = " -newerqq d";
	} else if (how == 1) { // -D tree: a starting point
		sym_assume(name[0] != '-' && name[0] != '(' && name[0] != ')' && name[0] != '!' && name[0] != ',' && name[0] != '.');
		for (int i = 0; i < n; ++i) sym_assume(name[i] != '/');
		mfs_mkdir(mfs_cwd, name);
		r = RUN("-j1", "-Dtree", name, "-quit");
		pr = "bfs: -D tree: bfs -P -j1 -S bfs -D tree ";
		tail = tty ? " -nocolor" : " -nocolor";
		SYM_ASSERT(r == 0, "debugging output does not change the exit status");
	} else { // part of an error message
		strcpy(name, "m");
		n = 1 + sym_param("len", 2);
		symname(name + 1, n - 1, true);
		r = RUN("-j1", "d", "-mindepth", name);
		pr = NULL;
		tail = " is not a valid integer.";
	}
	notes();
	char *line = mio_err.buf;
	if (!pr) { // third line
		for (int k = 0; k < 2; ++k) { while (*line && *line != '\n') ++line; if (*line) ++line; }
		pr = "bfs: error: ";
	}
	size_t pl = strlen(pr), tl = strlen(tail), ll = 0;
	while (line[ll] && line[ll] != '\n') ++ll;
	SYM_ASSERT(ll > pl + tl && memcmp(line, pr, pl) == 0, "the message starts as expected");
	char *s = line + pl, *e = line + ll - tl;
	SYM_ASSERT(memcmp(e, tail, tl) == 0, "the message ends as expected");
	bool clean = true;
	for (char *c = s; c < e; ++c) clean &= (unsigned char)*c >= 0x20 && *c != 0x7f;
	SYM_ASSERT(clean, "no control characters are printed in messages");
	int k = shell(s, e - s);
	SYM_ASSERT(k == n, "the quoted name is one shell word");
	bool ok = true;
	for (int i = 0; i < n; ++i) ok &= sh[i] == name[i];
	SYM_ASSERT(ok, "the quoted name evaluates to the name itself");
	no_leaks();
	sym_cover("done");
}

void harness(void) {
	world();
	switch (sym_param("mode", 0)) {
	case 0: name_mode(); break;
	case 1: fail_mode(); break;
	case 2: share_mode(); break;
	case 3: ls_mode(); break;
	case 4: message_mode(); break;
	}
}
