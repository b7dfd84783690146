// The optimizer never changes observable behaviour: for symbolic expressions,
// constants and file attributes, the output, exit status and side effects at
// -O1..-O3 equal those at -O0.
#include "common.h"

static const char *argv[48];
static int argc;
static void add(const char *s) { argv[argc++] = s; }

static struct numarg nums[4];
static int nnum;
static char types[4][8];
static int ntypes;
static const char *num(const char *suffix) { return numarg(&nums[nnum++], 1, suffix, true); }
static const char *typearg(void) {
	static const char letters[] = "fdlb";
	char *p = types[ntypes++];
	int n = 1 + sym_choice("ntypes", 2);
	for (int i = 0; i < n; ++i) { p[2 * i] = letters[sym_choice("letter", 4)]; p[2 * i + 1] = i + 1 < n ? ',' : 0; }
	return p;
}
static const char *typearg1(void) {
	static const char *l[] = {"f", "d", "l"};
	return l[sym_choice("letter", 3)];
}

static void test(int fam) {
	switch (fam) {
	case 0: // sizes
		switch (sym_choice("t", 6)) {
		case 0: add("-size"); add(num("c")); return;
		case 1: add("-size"); add(num("")); return;
		case 2: add("-size"); add(num("k")); return;
		case 3: add("-size"); add(num("w")); return;
		case 4: add("-empty"); return;
		case 5: add("-sparse"); return;
		}
	case 1:
		switch (sym_choice("t", 3)) {
		case 0: add("-uid"); add(num("")); return;
		case 1: add("-nouser"); return;
		case 2: add("-user"); add("third"); return;
		}
	case 2:
		switch (sym_choice("t", 3)) {
		case 0: add("-gid"); add(num("")); return;
		case 1: add("-nogroup"); return;
		case 2: add("-group"); add("third"); return;
		}
	case 3:
		switch (sym_choice("t", 3)) {
		case 0: add("-inum"); add(num("")); return;
		case 1: add("-samefile"); add("g"); return;
		case 2: add("-links"); add(num("")); return;
		}
	case 4:
		switch (sym_choice("t", 4)) {
		case 0: add("-type"); add(typearg()); return;
		case 1: add("-xtype"); add(typearg1()); return;
		case 2: add("-empty"); return;
		case 3: add("-type"); add("d"); return;
		}
	case 5:
		switch (sym_choice("t", 4)) {
		case 0: add("-depth"); add(num("")); return;
		case 1: add("-prune"); return;
		case 2: add("-quit"); return;
		case 3: add("-name"); add("f"); return;
		}
	case 6:
		switch (sym_choice("t", 9)) {
		case 0: add("-name"); add("f"); return;
		case 1: add("-hidden"); return;
		case 2: add("-path"); add("f"); return;
		case 3: add("-true"); return;
		case 4: add("-false"); return;
		case 5: add("-prune"); return;
		case 6: add("-quit"); return;
		case 7: add("-print"); return;
		case 8: add("-name"); add("*"); return;
		}
	case 7:
		switch (sym_choice("t", 5)) {
		case 0: add("-perm"); add("-020"); return;
		case 1: add("-readable"); return;
		case 2: add("-perm"); add("/u=w"); return;
		case 3: add("-perm"); add("644"); return;
		case 4: add("-executable"); return;
		}
	case 8:
		switch (sym_choice("t", 4)) {
		case 0: add("-mmin"); add(num("")); return;
		case 1: add("-newer"); add("g"); return;
		case 2: add("-mtime"); add(num("s")); return;
		case 3: add("-used"); add(num("")); return;
		}
	case 9: // one of each kind
		switch (sym_choice("t", 8)) {
		case 0: add("-uid"); add(num("")); return;
		case 1: add("-type"); add("f"); return;
		case 2: add("-size"); add(num("c")); return;
		case 3: add("-name"); add("f"); return;
		case 4: add("-print"); return;
		case 5: add("-quit"); return;
		case 6: add("-false"); return;
		case 7: add("-links"); add(num("")); return;
		}
	case 10: // actions
		switch (sym_choice("t", 5)) {
		case 0: add("-print"); return;
		case 1: add("-true"); return;
		case 2: add("-false"); return;
		case 3: add("-type"); add("d"); return;
		case 4: add("-quit"); return;
		}
	case 11:
		switch (sym_choice("t", 5)) {
		case 0: add("-print"); return;
		case 1: add("-name"); add("f"); return;
		case 2: add("-prune"); return;
		case 3: add("-depth"); add("-1"); return;
		case 4: add("-exit"); add("3"); return;
		}
	case 12: // types, links and sizes
		switch (sym_choice("t", 6)) {
		case 0: add("-type"); add(sym_choice("l", 2) ? "l" : "f"); return;
		case 1: add("-xtype"); add(sym_choice("l", 2) ? "l" : "f"); return;
		case 2: add("-lname"); add("*"); return;
		case 3: add("-empty"); return;
		case 4: add("-size"); add("0c"); return;
		case 5: add("-size"); add("-5c"); return;
		}
	case 13: // exclusions
		switch (sym_choice("t", 5)) {
		case 0: add("-links"); add(num("")); return;
		case 1: add("-type"); add("f"); return;
		case 2: add("-depth"); add(sym_choice("gt", 2) ? "+0" : "1"); return;
		case 3: add("-name"); add("f"); return;
		case 4: add("-size"); add(num("c")); return;
		}
	}
}
static void unary(int fam) {
	if (sym_param("neg", 1) && sym_bool("neg")) add("!");
	test(fam);
}
static void op(int set) {
	int fixed = sym_param("fixop", -1);
	switch (fixed >= 0 ? fixed : sym_choice("op", set)) {
	case 0: return; // and
	case 1: add("-o"); return;
	case 2: add(","); return;
	}
}

static char *out0;
static size_t len0;
static size_t err0;
static int ret0;

void harness(void) {
	world();
	int fam = sym_param("fam", 0), n = sym_param("n", 2), ops = sym_param("ops", 3);
	struct mnode *g = mfs_mkfile(mfs_cwd, "g", "");
	struct mnode *top = mfs_cwd, *f;
	bool dir = sym_param("dir", 0);
	if (dir) top = mfs_mkdir(mfs_cwd, "d");
	f = mfs_mkfile(top, "f", "");
	menv_users[2].name = menv_groups[2].name = "third";
	menv_nusers = menv_ngroups = 3;
	switch (fam) {
	case 0: f->size = sym_u64("size") & 0x7fffffffffffffff; f->blocks = sym_u64("blocks") & 0x7fffffffffffffff; break;
	case 1: f->uid = sym_u32("uid"); menv_users[2].id = sym_u32("uid2"); sym_assume(menv_users[2].id != 0 && menv_users[2].id != 1000); break;
	case 2: f->gid = sym_u32("gid"); menv_groups[2].id = sym_u32("gid2"); sym_assume(menv_groups[2].id != 0 && menv_groups[2].id != 1000); break;
	case 3: f->ino = sym_u64("ino") & 0x7fffffffffffffff; g->ino = sym_u64("ino2") & 0x7fffffffffffffff; f->dev_minor = sym_u32("dev") & 0xff; f->nlink = sym_u32("nlink"); break;
	case 4: {
		static const unsigned fmt[] = {S_IFREG, S_IFDIR, S_IFLNK, S_IFBLK};
		int k = sym_choice("ftype", 4);
		f->mode = fmt[k] | 0644;
		if (k == 2) f->target = sym_bool("dangling") ? "nowhere" : "g";
		if (dir) top->ent[0].type = sym_bool("dtunknown") ? 0 : fmt[k] >> 12;
		break;
	}
	case 12: {
		static const unsigned fmt[] = {S_IFREG, S_IFDIR, S_IFLNK, S_IFLNK, S_IFBLK};
		int k = sym_choice("ftype", 5);
		f->mode = fmt[k] | 0644;
		if (k == 2 || k == 3) f->target = k == 3 ? "nowhere" : "g";
		if (dir) top->ent[0].type = fmt[k] >> 12;
		f->size = sym_choice("size", 2);
		break;
	}
	case 13: f->nlink = sym_u32("nlink"); f->size = sym_u32("size"); break;
	case 5: case 6: case 10: case 11: if (dir) mfs_mkfile(f, "x", ""); f->mode = S_IFDIR | 0755; top->ent[0].type = 4; break;
	case 7: f->mode = S_IFREG | (sym_u16("mode") & 07777); break;
	case 8: f->mtime.tv_sec = menv_now.tv_sec + (int64_t)(sym_u32("mtime") & 0xffff) - 0x8000; f->atime.tv_sec = sym_u32("at"); f->ctime.tv_sec = sym_u32("ct"); g->mtime.tv_sec = sym_u32("gm"); break;
	case 9: f->uid = sym_u32("uid"); f->size = sym_u64("size") & 0x7fffffffffffffff; f->nlink = sym_u32("nlink"); break;
	}
	add("bfs");
	add("-O0");
	add(dir ? "d" : "f");
	static char mind[2], maxd[2];
	if (sym_param("limits", 0)) {
		mind[0] = '0' + sym_choice("mindepth", 3);
		maxd[0] = '0' + sym_choice("maxdepth", 3);
		add("-mindepth"); add(mind);
		add("-maxdepth"); add(maxd);
	}
	if (sym_param("excl", 0)) { add("-exclude"); unary(fam); }
	bool bare = sym_param("bare", 0); // the result of the expression is ignored
	if (!bare) add("(");
	int paren = n == 3 ? sym_choice("paren", 3) : 0;
	if (paren && sym_param("neg", 1) == 2 && sym_bool("negp")) add("!");
	if (paren == 1) add("(");
	unary(fam);
	op(ops);
	if (n == 3 && paren == 2) add("(");
	if (n >= 2) unary(fam);
	if (paren == 1) add(")");
	if (n == 3) { op(ops); unary(fam); }
	if (paren == 2) add(")");
	if (!bare) {
		add(")");
		add("-print");
		add("-o");
		add("-print0");
	}
	ret0 = bfs_run(argc, argv);
	len0 = mio_out.len;
	out0 = mio_out.buf;
	mio_str(&mio_err);
	err0 = mio_err.len;
	mio_out.buf = NULL;
	mio_out.cap = 0;
	mio_out.closed = mio_err.closed = mio_in.closed = false;
	mio_out.len = 0;
	static const char *lv[] = {"-O0", "-O1", "-O2", "-O3"};
	argv[1] = lv[sym_param("level", 3)];
	int ret = bfs_run(argc, argv);
	for (int i = 0; i < argc; ++i) sym_note(argv[i]);
	mio_str(&mio_out);
	sym_note("stdout:");
	sym_note(mio_out.buf);
	sym_note("stderr:");
	mio_str(&mio_err);
	sym_note(mio_err.buf);
	SYM_ASSERT(ret == ret0, "same exit status as without optimization");
	SYM_ASSERT(mio_out.len == len0 && (!len0 || memcmp(mio_out.buf, out0, len0) == 0), "same output as without optimization");
	if (ret0 == 0) sym_cover("ran");
	no_leaks();
}
