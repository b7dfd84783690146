#include "mos.h"
#include <string.h>
void harness(void) {
	mfs_init(); mio_init(); menv_init();
	struct mnode *d = mfs_mkdir(mfs_cwd, "d");
	mfs_mkfile(d, "a", "hello");
	struct mnode *e = mfs_mkdir(d, "e");
	mfs_mkfile(e, "b", "hello");
	const char *argv[] = {"bfs", "d", "-j1", "-type", "f", "-size", "-2", NULL};
	int r = bfs_run(7, argv);
	mio_str(&mio_out); mio_str(&mio_err);
	sym_note(mio_out.buf); sym_note(mio_err.buf);
	SYM_ASSERT(mfs_open_fds() == 0, "no leaks");
	SYM_ASSERT(r == 77, "ret");
}
