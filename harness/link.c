// Targets of symbolic links, whatever their length and the size stat() reports.
#include "common.h"

void harness(void) {
	world();
	static char target[700];
	static const int lens[] = {1, 2, 15, 31, 62, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 600};
	int len = lens[sym_choice("len", 16)];
	for (int i = 0; i < len; ++i) target[i] = 'a' + i % 25;
	target[len - 1] = 'z';
	struct mnode *l = mfs_symlink(mfs_cwd, "l", target);
	static const int sizes[] = {0, 1, 2, 16, 31, 32, 63, 64, 127, 128, 1000};
	int k = sym_choice("size", 14);
	l->size = k < 11 ? sizes[k] : len + k - 12; // what the kernel says, e.g. 0 on procfs
	int mode = sym_param("mode", 0), ret;
	static char want[800];
	static const char *from[] = {"l", "/w/l", "../w/l"};
	const char *root = from[sym_choice("root", 3)];
	want[0] = 0;
	if (mode == 0) { ret = RUN("-j1", root, "-printf", "%l"); strcpy(want, target); }
	else if (mode == 1) {
		int p = sym_choice("pat", 3);
		ret = RUN("-j1", root, "-lname", p == 0 ? target : p == 1 ? "*z" : "*y", "-print");
		if (p < 2) { strcpy(want, root); strcat(want, "\n"); }
	} else {
		ret = RUN("-j1", root, "-ls");
		strcpy(want, root); strcat(want, " -> "); strcat(want, target); strcat(want, "\n");
		size_t n = strlen(want);
		notes();
		SYM_ASSERT(mio_out.len > n && memcmp(mio_out.buf + mio_out.len - n, want, n) == 0, "-ls ends with the whole target");
		SYM_ASSERT(ret == 0 && mio_err.len == 0, "no error");
		sym_cover("done");
		return;
	}
	notes();
	SYM_ASSERT(out_is(want), "the whole target is used");
	SYM_ASSERT(ret == 0 && mio_err.len == 0, "no error");
	sym_cover("done");
	no_leaks();
}
