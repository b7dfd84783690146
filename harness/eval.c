// Single-file tests through the whole program: "bfs f TEST" prints f exactly
// when the documented predicate holds, for every value of the stat fields.
#include "common.h"

static struct mnode *f;
static struct numarg na, nb;
static const char *outp = "f\n";
typedef __int128 i128;

static void want(bool expect, int ret) {
	notes();
	if (out_is(outp)) {
		SYM_ASSERT(expect, "a file is printed only if the test is true for it");
		sym_cover("printed");
	} else {
		SYM_ASSERT(out_is(""), "nothing but the path is printed");
		SYM_ASSERT(!expect, "a file for which the test is true is printed");
		sym_cover("skipped");
	}
	SYM_ASSERT(ret == 0, "exit status 0 without errors");
	no_leaks();
}

// where the tested file is and how it is reached
static int where;
static int go_(const char **args) {
	const char *av[24];
	int n = 0;
	av[n++] = "bfs";
	static const char *paths[] = {"f", "d", "d", "l", "d", "f", "f", "d"};
	if (where == 3) av[n++] = "-H";
	if (where == 4 || where == 6) av[n++] = "-L";
	av[n++] = paths[where];
	if (where == 1 || where == 2 || where == 4 || where == 7) { av[n++] = "-mindepth"; av[n++] = "1"; }
	while (*args) av[n++] = *args++;
	av[n] = NULL;
	int r = bfs_run(n, av);
	mio_str(&mio_out);
	mio_str(&mio_err);
	return r;
}
#define GO(...) ({ const char *a_[] = {__VA_ARGS__, NULL}; go_(a_); })
static void place(void) {
	where = sym_param("where", 0);
	struct mnode *d = mfs_mkdir(mfs_cwd, "d"), *g;
	switch (where) {
	case 1: case 2: case 7: // an entry of a directory, with and without a known type; a link in one
		f = mfs_mkfile(d, "f", "");
		if (where == 2) d->ent[0].type = 0;
		outp = "d/f\n";
		if (where == 7) { mfs_mkfile(mfs_cwd, "g", "data"); f->mode = S_IFLNK | 0777; f->target = "../g"; d->ent[0].type = S_IFLNK >> 12; }
		break;
	case 3: // a followed link on the command line
		f = mfs_mkfile(mfs_cwd, "f", "");
		mfs_symlink(mfs_cwd, "l", "f");
		outp = "l\n";
		break;
	case 4: // a followed link in a directory
		f = mfs_mkfile(mfs_cwd, "f", "");
		mfs_symlink(d, "l", "../f");
		outp = "d/l\n";
		break;
	case 5: // a link that is not followed
		mfs_mkfile(mfs_cwd, "g", "data");
		f = mfs_symlink(mfs_cwd, "f", "g");
		break;
	case 6: // a dangling link
		f = mfs_symlink(mfs_cwd, "f", "nowhere");
		break;
	default:
		f = mfs_mkfile(mfs_cwd, "f", "");
	}
	// everything that the test is not about may have any value
	f->blocks = sym_u32("any-blocks");
	f->nlink = sym_u32("any-links");
	f->uid = sym_u32("any-uid");
	f->gid = sym_u32("any-gid");
	f->rdev_major = sym_u8("any-major");
	f->rdev_minor = sym_u8("any-minor");
	if (S_ISREG(f->mode)) f->size = sym_u32("any-size");
}
static void setfmt(unsigned fmt) {
	f->mode = fmt | (f->mode & 07777);
	struct mnode *d = mfs_lookup("/w/d");
	if ((where == 1 || where == 7) && d->nent) d->ent[0].type = fmt >> 12;
}
static struct mnode *ref(void) { struct mnode *g = mfs_lookup("/w/g"); return g ? g : mfs_mkfile(mfs_cwd, "g", ""); }

static i128 ceildiv(i128 a, i128 b) { return (a + b - 1) / b; }

static void t_num(const char *test, int field) {
	uint64_t v = sym_u64("field");
	i128 ref;
	if (field == 0) { v &= 0xffffffff; f->nlink = (uint32_t)v; ref = v; }
	else if (field == 1) { v &= 0x7fffffffffffffff; f->ino = v; ref = v; }
	else if (field == 2) { v &= 0xffffffff; f->uid = v; ref = v; }
	else { v &= 0xffffffff; f->gid = v; ref = v; }
	const char *arg = numarg(&na, sym_param("digits", 2), "", true);
	int r = GO(test, arg);
	want(numcmp(&na, ref), r);
}

static void t_size(void) {
	static const char *units[] = {"", "b", "c", "w", "k", "M", "G", "T", "P"};
	static const uint64_t scale[] = {512, 512, 1, 2, 1ull << 10, 1ull << 20, 1ull << 30, 1ull << 40, 1ull << 50};
	int u = sym_param("unit", 0);
	uint64_t v = sym_u64("size") & 0x7fffffffffffffff;
	f->size = v;
	const char *arg = numarg(&na, sym_param("digits", 2), units[u], true);
	int r = GO("-size", arg);
	want(numcmp(&na, ceildiv(v, scale[u])), r);
}

static void symtime(struct timespec *ts, const char *name) {
	// seconds in [-2^40, 2^40], any nanoseconds
	ts->tv_sec = (int64_t)(sym_u64(name) & ((1ull << 41) - 1)) - (1ll << 40);
	ts->tv_nsec = sym_u32("nsec");
	sym_assume((uint64_t)ts->tv_nsec < 1000000000);
}
static i128 ns(const struct timespec *t) { return (i128)t->tv_sec * 1000000000 + t->tv_nsec; }
static i128 floordiv(i128 a, i128 b) { i128 q = a / b; return a % b < 0 ? q - 1 : q; }
static int cmpts(const struct timespec *a, const struct timespec *b) {
	// branch-free lexicographic comparison
	int s = (a->tv_sec > b->tv_sec) - (a->tv_sec < b->tv_sec);
	int n = (a->tv_nsec > b->tv_nsec) - (a->tv_nsec < b->tv_nsec);
	return s * 2 + n;
}
// seconds between b and a, rounded down
static int64_t secdiff(const struct timespec *a, const struct timespec *b) { return a->tv_sec - b->tv_sec - (a->tv_nsec < b->tv_nsec); }

static void t_age(const char *test, struct timespec *field, int unit) {
	static const char *sfx[] = {"", "", "s", "m", "h", "d", "w"};
	static const int64_t mul[] = {1, 1, 1, 60, 3600, 86400, 604800};
	symtime(&menv_now, "now");
	symtime(field, "time");
	const char *arg = numarg(&na, sym_param("digits", 1), sfx[unit], true);
	int r = GO(test, arg);
	int64_t d = secdiff(&menv_now, field);
	i128 ref;
	if (unit == 0) ref = d / 86400; // days, remainder discarded
	else if (unit == 1) ref = d / 60;
	else { ref = d; na.val *= mul[unit]; }
	want(numcmp(&na, ref), r);
}

static void t_newer(const char *test, struct timespec *field, struct timespec *(*reff)(struct mnode *)) {
	struct mnode *g = ref();
	symtime(field, "time");
	symtime(reff(g), "ref");
	int r = GO(test, "g");
	want(cmpts(field, reff(g)) > 0, r);
}
static struct timespec *ra(struct mnode *n) { return &n->atime; }
static struct timespec *rb(struct mnode *n) { return &n->btime; }
static struct timespec *rc(struct mnode *n) { return &n->ctime; }
static struct timespec *rm(struct mnode *n) { return &n->mtime; }

static void t_used(void) {
	symtime(&f->atime, "atime");
	symtime(&f->ctime, "ctime");
	const char *arg = numarg(&na, 1, "", true);
	int r = GO("-used", arg);
	int64_t d = secdiff(&f->atime, &f->ctime);
	// days between change and access, rounded up; never true if accessed before the change
	bool e = d >= 0 && numcmp(&na, (d + 86399) / 86400);
	want(e, r);
}

static void t_perm(void) {
	// numeric: [-/]OOO
	int kind = sym_choice("kind", 4);
	char arg[16];
	char *p = arg;
	if (kind == 1) *p++ = '-';
	if (kind == 2) *p++ = '/';
	if (kind == 3) *p++ = '+';
	unsigned m = 0;
	for (int i = 0; i < sym_param("digits", 4); ++i) {
		uint8_t d = sym_u8("oct");
		sym_assume(d <= 7);
		*p++ = '0' + d;
		m = m * 8 + d;
	}
	*p = 0;
	unsigned mode = sym_u16("mode") & 07777;
	bool dir = sym_param("dir", 0);
	if (dir) setfmt(S_IFDIR);
	f->mode = (f->mode & S_IFMT) | mode;
	int r = GO("-perm", arg);
	bool e = kind == 0 ? mode == m : kind == 1 ? (mode & m) == m : m == 0 || (mode & m);
	want(e, r);
}

static void t_type(void) {
	static const char letters[] = "bcdpfls";
	static const unsigned fmt[] = {S_IFBLK, S_IFCHR, S_IFDIR, S_IFIFO, S_IFREG, S_IFLNK, S_IFSOCK};
	char arg[8];
	int n = sym_param("ntypes", 2);
	unsigned set = 0;
	for (int i = 0; i < n; ++i) {
		int c = sym_choice("letter", 7);
		arg[2 * i] = letters[c];
		arg[2 * i + 1] = i + 1 < n ? ',' : 0;
		set |= 1u << c;
	}
	bool x = sym_param("x", 0);
	bool indir = sym_param("indir", 0);
	int k = sym_choice("filetype", 7);
	struct mnode *dir = NULL, *tgt = NULL;
	bool slash = false;
	setfmt(fmt[k]);
	int kt = k;
	if (fmt[k] == S_IFLNK) {
		int kind = sym_choice("target", 3);
		if (kind == 0) f->target = "nowhere";
		else if (kind == 1) { f->target = "/w/g"; kt = 1 + sym_choice("gtype", 4); tgt = mfs_mkfile(mfs_cwd, "g", ""); tgt->mode = fmt[kt] | 0644; }
		else f->target = "f";
	}
	int L = sym_param("follow", 0);
	// under -L a working link has its target's type; -xtype is the opposite
	bool deref = (L != 0) != x;
	int eff = deref ? kt : k;
	if (k == 5 && deref && f->target[0] == 'n') eff = 5;
	if (k == 5 && f->target[0] == 'f' && !f->target[1]) {
		sym_assume(!deref); // link loops are errors when followed (see the error property)
		if (L) sym_assume(0);
	}
	int r = L ? GO("-follow", x ? "-xtype" : "-type", arg) : GO(x ? "-xtype" : "-type", arg);
	want(set >> eff & 1, r);
}

// the syntax of type lists
static void t_typelist(void) {
	static const char alpha[] = "bcdpflsDw,z";
	static const unsigned fmt[] = {S_IFBLK, S_IFCHR, S_IFDIR, S_IFIFO, S_IFREG, S_IFLNK, S_IFSOCK};
	char arg[8];
	int n = sym_param("len", 3);
	for (int i = 0; i < n; ++i) { arg[i] = sym_u8("c"); bool ok = false; for (int j = 0; j < 11; ++j) ok |= arg[i] == alpha[j]; sym_assume(ok); }
	arg[n] = 0;
	int k = sym_choice("filetype", 6);
	if (k == 5) k = 6;
	setfmt(fmt[k]);
	int r = GO("-type", arg);
	bool valid = n % 2 == 1, match = false;
	for (int i = 0; i < n && valid; ++i) {
		if (i % 2) { if (arg[i] != ',') valid = false; }
		else if (arg[i] == ',' || arg[i] == 'z') valid = false;
		else if (arg[i] == alpha[k]) match = true;
	}
	if (valid) { want(match, r); return; }
	notes();
	SYM_ASSERT(r != 0 && mio_err.len > 0, "a malformed type list is rejected");
	SYM_ASSERT(mio_out.len == 0, "nothing is printed for a malformed type list");
	sym_cover("rejected");
}

// chmod-style symbolic modes, applied to an empty mode
static unsigned smask;
static int symmode(const char *s, bool dir) { // -1: malformed, -2: not specified
	unsigned m = 0;
	for (;;) {
		unsigned who = 0;
		for (;; ++s) {
			if (*s == 'u') who |= 0700;
			else if (*s == 'g') who |= 070;
			else if (*s == 'o') who |= 07;
			else if (*s == 'a') who |= 0777;
			else break;
		}
		unsigned mask = who ? who : 0777 & ~smask;
		if (!who) who = 0777;
		if (*s != '+' && *s != '-' && *s != '=') return -1;
		while (*s == '+' || *s == '-' || *s == '=') {
			char op = *s++;
			unsigned v = 0;
			if (*s == 'u' || *s == 'g' || *s == 'o') {
				v = (m >> (*s == 'u' ? 6 : *s == 'g' ? 3 : 0) & 7) * 0111 & mask;
				++s;
			} else for (;; ++s) {
				if (*s == 'r') v |= mask & 0444;
				else if (*s == 'w') v |= mask & 0222;
				else if (*s == 'x') v |= mask & 0111;
				else if (*s == 'X') v |= dir ? mask & 0111 : 0;
				else if (*s == 's') v |= (who & 0700 ? 04000 : 0) | (who & 070 ? 02000 : 0);
				else if (*s == 't') v |= who & 07 ? 01000 : 0;
				else break;
			}
			if (op == '=') {
				if (m & 07000) return -2; // what = does to these bits is up to the implementation
				m = (m & ~who) | v;
			} else if (op == '+') m |= v;
			else m &= ~v;
		}
		if (!*s) return m;
		if (*s++ != ',') return -1;
	}
}
static void t_sperm(void) {
	const char *alpha = sym_param("small", 0) ? "u+-=wXs," : "ugoa+-=rwxXst,/";
	char arg[24], *p = arg;
	int form = sym_param("form", 0), len = sym_param("len", 4);
	if (form == 0) {
		for (int i = 0; i < len; ++i) { uint8_t c = sym_u8("c"); bool ok = false; for (const char *a = alpha; *a; ++a) ok |= c == *a; sym_assume(ok); *p++ = c; }
	} else { // two actions, in one clause or two
		static const char *who[] = {"", "u", "g", "o", "ug"}, *perm[] = {"", "r", "wx", "X", "s", "t", "u", "g", "o"};
		const char *part[6] = {0};
		part[0] = who[sym_choice("who", 5)];
		part[1] = &"+\0-\0="[2 * sym_param("op", 0)];
		part[2] = perm[sym_choice("perm", 9)];
		int w = sym_choice("who2", 6);
		part[3] = w == 5 ? "" : who[w];
		part[4] = &"+\0-\0="[2 * sym_choice("op", 3)];
		part[5] = perm[sym_choice("perm", 9)];
		for (int i = 0; i < 6; ++i) {
			if (i == 3 && w < 5) *p++ = ',';
			for (const char *q = part[i]; *q; ++q) *p++ = *q;
		}
	}
	*p = 0;
	bool dir = sym_param("dir", 0);
	if (dir) setfmt(S_IFDIR);
	unsigned mode = sym_u16("mode") & 07777;
	f->mode = (f->mode & S_IFMT) | mode;
	smask = menv_umask = sym_param("umask", 027);
	int r = GO("-perm", arg);
	sym_note(arg);
	int kind = arg[0] == '-' ? 1 : arg[0] == '/' ? 2 : 0;
	int m = symmode(arg + (kind != 0), dir);
	if (m == -1) {
		notes();
		SYM_ASSERT(r != 0 && mio_err.len > 0, "a malformed mode is rejected");
		SYM_ASSERT(mio_out.len == 0, "nothing is printed for a malformed mode");
		sym_cover("rejected");
		return;
	}
	if (m == -2) return;
	bool e = kind == 0 ? mode == m : kind == 1 ? (mode & m) == m : m == 0 || (mode & m);
	want(e, r);
}

// several files with owners from a small set: lookups are cached
static void t_owners(bool group) {
	static const uint32_t ids[] = {0, 1000, 5, 77};
	menv_users[2] = menv_groups[2] = (struct mpw){"third", 5};
	menv_nusers = menv_ngroups = 3;
	struct mnode *d = mfs_mkdir(mfs_cwd, "e");
	static char name[4][2];
	char exp[64];
	int n = sym_param("n", 3), len = 0;
	bool neg = sym_bool("neg");
	for (int i = 0; i < n; ++i) {
		name[i][0] = 'a' + i;
		struct mnode *m = mfs_mkfile(d, name[i], "");
		int k = sym_choice("id", 4);
		if (group) m->gid = ids[k]; else m->uid = ids[k];
		if ((k == 3) != neg) { exp[len++] = 'e'; exp[len++] = '/'; exp[len++] = 'a' + i; exp[len++] = '\n'; }
	}
	exp[len] = 0;
	const char *t = group ? "-nogroup" : "-nouser";
	int r = neg ? RUN("-s", "e", "-mindepth", "1", "!", t) : RUN("-s", "e", "-mindepth", "1", t);
	notes();
	SYM_ASSERT(out_is(exp), "exactly the files with an unknown owner are selected");
	SYM_ASSERT(r == 0, "exit status 0 without errors");
	sym_cover(len ? "printed" : "skipped");
	no_leaks();
}

static void t_sparse(void) {
	uint64_t size = sym_u64("size") & 0x7fffffffffffffff, blocks = sym_u64("blocks") & 0x7fffffffffffffff;
	f->size = size;
	f->blocks = blocks;
	int r = GO("-sparse");
	want((i128)blocks < ceildiv(size, 512), r);
}

static void t_samefile(void) {
	struct mnode *g = ref();
	f->ino = sym_u64("ino1");
	g->ino = sym_u64("ino2");
	f->dev_major = sym_u32("maj1") & 0xfff;
	g->dev_major = sym_u32("maj2") & 0xfff;
	f->dev_minor = sym_u32("min1") & 0xfffff;
	g->dev_minor = sym_u32("min2") & 0xfffff;
	int r = GO("-samefile", "g");
	want(f->ino == g->ino && f->dev_major == g->dev_major && f->dev_minor == g->dev_minor, r);
}

static void t_owner(bool group) {
	uint32_t id = sym_u32("id");
	if (group) f->gid = id; else f->uid = id;
	uint32_t u = sym_u32("known");
	sym_assume(u != 0 && u != 1000);
	if (group) { menv_groups[2] = (struct mpw){"third", u}; menv_ngroups = 3; }
	else { menv_users[2] = (struct mpw){"third", u}; menv_nusers = 3; }
	bool named = id == 0 || id == 1000 || id == u;
	int k = sym_choice("test", 2);
	if (k == 0) { int r = GO(group ? "-nogroup" : "-nouser"); want(!named, r); }
	else { int r = GO(group ? "-group" : "-user", "third"); want(id == u, r); }
}

static void t_access(void) {
	static const char *t[] = {"-readable", "-writable", "-executable"};
	unsigned mode = sym_u16("mode") & 0777;
	f->mode = (f->mode & S_IFMT) | mode;
	int k = sym_choice("which", 3);
	int r = GO(t[k]);
	want(mode >> (8 - k) & 1, r);
}

static void t_empty(void) {
	int k = sym_choice("kind", 3);
	if (k == 0) {
		f->size = sym_u64("size") & 0x7fffffffffffffff;
		int r = GO("-empty");
		want(f->size == 0, r);
	} else if (k == 1) {
		setfmt(S_IFDIR);
		int n = sym_choice("children", 3);
		for (int i = 0; i < n; ++i) mfs_mkfile(f, i ? "y" : "x", "");
		int r = GO("-maxdepth", where == 1 || where == 2 || where == 4 ? "1" : "0", "-empty");
		want(n == 0, r);
	} else {
		static const unsigned fmts[] = {S_IFBLK, S_IFCHR, S_IFIFO, S_IFSOCK};
		setfmt(fmts[sym_choice("fmt", 4)]);
		f->size = sym_choice("nonempty", 2);
		int r = GO("-empty");
		want(false, r);
	}
}

void harness(void) {
	world();
	place();
	int unit = sym_param("unit", 0);
	switch (sym_param("test", 0)) {
	case 0: t_num("-links", 0); break;
	case 1: t_num("-inum", 1); break;
	case 2: t_num("-uid", 2); break;
	case 3: t_num("-gid", 3); break;
	case 4: t_size(); break;
	case 5: t_age(unit == 1 ? "-mmin" : "-mtime", &f->mtime, unit); break;
	case 6: t_age(unit == 1 ? "-amin" : "-atime", &f->atime, unit); break;
	case 7: t_age(unit == 1 ? "-cmin" : "-ctime", &f->ctime, unit); break;
	case 8: t_age(unit == 1 ? "-Bmin" : "-Btime", &f->btime, unit); break;
	case 9: t_newer("-newer", &f->mtime, rm); break;
	case 10: t_newer("-anewer", &f->atime, rm); break;
	case 11: t_newer("-cnewer", &f->ctime, rm); break;
	case 12: t_newer("-Bnewer", &f->btime, rm); break;
	case 13: t_newer("-newerac", &f->atime, rc); break;
	case 14: t_newer("-newerBa", &f->btime, ra); break;
	case 15: t_newer("-newercB", &f->ctime, rb); break;
	case 16: t_newer("-newermc", &f->mtime, rc); break;
	case 17: t_used(); break;
	case 18: t_perm(); break;
	case 19: t_type(); break;
	case 20: t_sparse(); break;
	case 21: t_samefile(); break;
	case 22: t_owner(false); break;
	case 23: t_owner(true); break;
	case 24: t_access(); break;
	case 25: t_empty(); break;
	case 26: t_sperm(); break;
	case 27: t_typelist(); break;
	case 28: t_owners(false); break;
	case 29: t_owners(true); break;
	}
}
