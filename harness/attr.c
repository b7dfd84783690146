// -xattr, -xattrname, -acl, -capable and the + of -ls: what the file itself has.
#include "common.h"
#include <errno.h>

static struct mattr mine, other;
static bool absent(int e) { return e == ENOTSUP || e == ENODATA || e == EINVAL; }
static const int tags[] = {0x01, 0x02, 0x04, 0x08, 0x10, 0x20};
static const char *const names[] = {"user.a", "user.ab", "security.a"};

// what the tested file has
static void fill(struct mattr *a, int test, bool dir) {
	a->nacl[0] = a->nacl[1] = -1;
	switch (test) {
	case 0: case 1:
		a->nx = sym_choice("attributes", 3);
		for (int i = 0; i < a->nx; ++i) {
			static int k;
			k = i ? (k + 1 + sym_choice("name", test ? 2 : 1)) % 3 : sym_choice("name", test ? 3 : 1);
			a->xname[i] = names[k];
			a->xlen[i] = i ? 0 : sym_choice("value", 2) * 7;
		}
		break;
	case 2: case 4:
		if (sym_choice("access", 2)) {
			a->nacl[0] = 3 + sym_choice("more", 3);
			a->tag[0][0] = 0x01;
			a->tag[0][1] = 0x04;
			a->tag[0][2] = 0x20;
			int at = sym_choice("at", 3); // where the other entries are
			for (int i = 3; i < a->nacl[0]; ++i) {
				int v = (int[]){0x02, 0x08, 0x10}[sym_choice("tag", 3)];
				a->tag[0][i] = a->tag[0][i - at];
				a->tag[0][i - at] = v;
			}
		}
		if (dir && sym_choice("default", 2)) {
			a->nacl[1] = sym_choice("entries", 4);
			for (int i = 0; i < a->nacl[1]; ++i) a->tag[1][i] = (int[]){0x01, 0x04, 0x20}[i];
		}
		break;
	case 3:
		a->caps = (const char *[]){NULL, "", "cap_chown=ep"}[sym_choice("caps", 3)];
	}
}
// the opposite, for a file that must not be asked
static void decoy(struct mattr *a, bool has, const char *name) {
	a->nx = !has;
	a->xname[0] = name;
	a->xlen[0] = 1;
	a->nacl[1] = -1;
	a->nacl[0] = has ? -1 : 4;
	for (int i = 0; i < 4; ++i) a->tag[0][i] = tags[i];
	a->caps = has ? NULL : "cap_chown=ep";
}

void harness(void) {
	world();
	int test = sym_param("test", 0);
	int where = sym_choice("where", 3);   // argument, entry, deeper entry
	int kind = sym_choice("kind", 3);     // file, directory, link
	int follow = sym_choice("follow", 2);
	mfs_proc = sym_choice("proc", 2);
	struct mnode *d = mfs_mkdir(mfs_cwd, "d"), *e = mfs_mkdir(d, "e");
	struct mnode *in = where == 0 ? mfs_cwd : where == 1 ? d : e, *f, *self;
	static const char *const paths[] = {"f", "d/f", "d/e/f"};
	bool dangling = false;
	if (kind == 0) f = mfs_mkfile(in, "f", "");
	else if (kind == 1) f = mfs_mkdir(in, "f");
	else {
		int to = sym_choice("to", 3);
		dangling = to == 2;
		f = mfs_symlink(in, "f", to == 0 ? "/t" : to == 1 ? "/td" : "/none");
		mfs_mkfile(mfs_root, "t", "");
		mfs_mkdir(mfs_root, "td");
	}
	struct mnode *target = kind == 2 && !dangling ? mfs_lookup(f->target) : NULL;
	self = target && follow ? target : f;
	bool link = S_ISLNK(self->mode), dir = S_ISDIR(self->mode);
	static const int errs[] = {0, EIO, EACCES, ENOTSUP, ENODATA, EINVAL, E2BIG, ENOMEM};
	mine.err = errs[sym_choice("error", 8)];
	if (mine.err) { mine.nx = 1; mine.xname[0] = names[0]; mine.nacl[0] = mine.nacl[1] = -1; mine.caps = "cap_chown=ep"; }
	else fill(&mine, test, dir);
	self->attr = &mine;

	const char *name = names[sym_choice("wanted", test == 1 ? 3 : 1)];
	bool has = false, fails = mine.err && !absent(mine.err);
	if (mine.err) {
		if (mine.err == E2BIG && test < 2) { has = true; fails = false; }
	} else if (test == 0) has = mine.nx > 0;
	else if (test == 1) { for (int i = 0; i < mine.nx; ++i) has |= strcmp(mine.xname[i], name) == 0; }
	else if (test == 3) has = mine.caps && mine.caps[0];
	else has = mine.nacl[0] > 3 || mine.nacl[1] > 0;
	if (link && test >= 2) has = fails = false; // links have neither

	decoy(&other, has, name);
	if (self != f) f->attr = &other; // the link itself
	else if (target) target->attr = &other;
	if (where) mfs_mkfile(mfs_cwd, "f", "")->attr = &other; // the same name elsewhere
	if (where == 2) mfs_mkfile(d, "f", "")->attr = &other;

	const char *av[16], *root = where == 0 ? "f" : "d";
	int n = 0;
	av[n++] = "bfs";
	if (follow) av[n++] = "-L";
	av[n++] = root;
	static const char *const depth[] = {"0", "1", "2"};
	av[n++] = "-mindepth"; av[n++] = depth[where];
	av[n++] = "-maxdepth"; av[n++] = depth[where];
	av[n++] = "-name"; av[n++] = "f";
	static const char *const tests[] = {"-xattr", "-xattrname", "-acl", "-capable", "-ls"};
	if ((test == 0 || test == 3) && sym_choice("negated", 2)) { av[n++] = "!"; }
	bool neg = strcmp(av[n - 1], "!") == 0;
	av[n++] = tests[test];
	if (test == 1) av[n++] = name;
	if (test < 4) av[n++] = "-print";
	av[n] = NULL;
	int ret = bfs_run(n, av);
	mio_str(&mio_out);
	mio_str(&mio_err);
	notes();
	if (test == 4) {
		// inode, blocks, mode, flag
		const char *p = mio_out.buf;
		for (int i = 0; i < 2; ++i) { while (*p == ' ') ++p; while (*p && *p != ' ') ++p; }
		while (*p == ' ') ++p;
		SYM_ASSERT(strlen(p) > 12, "-ls describes the file");
		SYM_ASSERT(p[10] == (has ? '+' : ' '), "-ls marks exactly the files with an access control list");
		SYM_ASSERT(ret == 0 && mio_err.len == 0, "no error");
		sym_cover(has ? "printed" : "skipped");
	} else {
		char want[16];
		strcpy(want, paths[where]);
		strcat(want, "\n");
		if (fails) {
			SYM_ASSERT(ret != 0 && mio_err.len > 0, "an attribute that cannot be read is reported");
			sym_cover("failed");
		} else SYM_ASSERT(ret == 0 && mio_err.len == 0, "no error for a missing attribute");
		if (has != neg) { SYM_ASSERT(out_is(want), "a file that has the attribute is found"); sym_cover("printed"); }
		else { SYM_ASSERT(out_is(""), "a file without the attribute is not found"); sym_cover("skipped"); }
	}
	SYM_ASSERT(mfs_attr_open == 0, "attribute objects are freed");
	no_leaks();
}
