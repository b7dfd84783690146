// The background I/O queue (real ioq.c) under every interleaving of its
// threads: every request completes exactly once with the right result, and
// nothing deadlocks, races or leaks.
#include "common.h"
#include "dir.h"
#include "ioq.h"
#include "stat.h"
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define MAX 20
static struct req {
	enum ioq_op op;
	int fd;
	struct bfs_dir *dir;
	struct bfs_stat buf;
	char path[2];
	bool sent, done;
} req[MAX];
static struct mnode *node[4];
static struct ioq *ioq;
static int ndone, nsent;
static bool cancelled;

static void request(int i) {
	struct req *r = &req[i];
	int ret;
	size_t cap = ioq_capacity(ioq);
	switch (r->op) {
	case IOQ_CLOSE: ret = ioq_close(ioq, r->fd, r); break;
	case IOQ_OPENDIR: ret = ioq_opendir(ioq, r->dir, AT_FDCWD, r->path, 0, r); break;
	case IOQ_CLOSEDIR: ret = ioq_closedir(ioq, r->dir, r); break;
	case IOQ_STAT: ret = ioq_stat(ioq, AT_FDCWD, r->path, BFS_STAT_NOFOLLOW, &r->buf, r); break;
	default: ret = ioq_nop(ioq, IOQ_NOP_LIGHT, r); break;
	}
	if (ret != 0) {
		SYM_ASSERT(cancelled || cap == 0, "a request was refused although the queue has room");
		SYM_ASSERT(errno == (cancelled ? EINTR : EAGAIN), "wrong error for a refused request");
		return;
	}
	SYM_ASSERT(!cancelled && cap > 0, "a request was accepted although there is no room");
	SYM_ASSERT(ioq_capacity(ioq) == cap - 1, "wrong capacity");
	r->sent = true;
	nsent++;
}
static void got(struct ioq_ent *ent) {
	struct req *r = ent->ptr;
	SYM_ASSERT(r >= req && r < req + MAX && r->sent, "unknown completion");
	SYM_ASSERT(!r->done, "a request completed twice");
	SYM_ASSERT(ent->op == r->op, "wrong operation");
	r->done = true;
	ndone++;
	int i = r->path[0] - 'a';
	if (cancelled && ent->result == -EINTR) {
		SYM_ASSERT(r->op != IOQ_CLOSE && r->op != IOQ_CLOSEDIR, "a close was cancelled");
		sym_cover("cancelled");
	} else {
		switch (r->op) {
		case IOQ_CLOSE:
			SYM_ASSERT(ent->result == 0, "close failed");
			break;
		case IOQ_OPENDIR:
			if (i == 3) { SYM_ASSERT(ent->result == -ENOENT, "wrong opendir error"); break; }
			if (i == 1) { SYM_ASSERT(ent->result == -ENOTDIR, "wrong opendir error"); break; }
			SYM_ASSERT(ent->result >= 0, "opendir failed");
			struct bfs_dirent de;
			int n = 0;
			while (bfs_readdir(r->dir, &de) > 0) n++;
			SYM_ASSERT(n == 1, "wrong directory contents");
			bfs_closedir(r->dir);
			break;
		case IOQ_CLOSEDIR:
			SYM_ASSERT(ent->result == 0, "closedir failed");
			break;
		case IOQ_STAT:
			if (i == 3) { SYM_ASSERT(ent->result == -ENOENT, "wrong stat error"); break; }
			SYM_ASSERT(ent->result == 0, "stat failed");
			SYM_ASSERT(r->buf.ino == node[i]->ino && r->buf.size == (off_t)node[i]->size, "wrong stat data");
			break;
		default:
			SYM_ASSERT(ent->result == 0, "nop failed");
		}
	}
	ioq_free(ioq, ent);
}
static void pop(bool block) {
	struct ioq_ent *ent = ioq_pop(ioq, block);
	if (ent) got(ent);
	else SYM_ASSERT(!block || ndone == nsent, "a blocking pop gave up early");
}
void harness(void) {
	int n = sym_param("n", 3), depth = sym_param("depth", 4), nthr = sym_param("threads", 1), mix = sym_param("mix", 0), mode = sym_param("mode", 0);
	mio_init(); mfs_init(); menv_init();
	node[0] = mfs_mkdir(mfs_cwd, "a");
	node[1] = mfs_mkfile(mfs_cwd, "b", "hello");
	node[2] = mfs_mkdir(mfs_cwd, "c");
	mfs_mkfile(node[0], "x", "");
	mfs_mkfile(node[2], "y", "");
	static const enum ioq_op ops[4][4] = {
		{IOQ_NOP, IOQ_NOP, IOQ_NOP, IOQ_NOP},
		{IOQ_STAT, IOQ_OPENDIR, IOQ_CLOSE, IOQ_OPENDIR},
		{IOQ_CLOSEDIR, IOQ_STAT, IOQ_CLOSE, IOQ_NOP},
		{IOQ_OPENDIR, IOQ_STAT, IOQ_STAT, IOQ_OPENDIR},
	};
	for (int i = 0; i < n; ++i) {
		struct req *r = &req[i];
		r->op = ops[mix][i % 4];
		r->path[0] = "abcd"[i % 4];
		if (r->op == IOQ_CLOSE) { r->fd = open("b", O_RDONLY); SYM_ASSERT(r->fd >= 0, "open"); }
		if (r->op == IOQ_OPENDIR || r->op == IOQ_CLOSEDIR) r->dir = bfs_allocdir();
		if (r->op == IOQ_CLOSEDIR) SYM_ASSERT(bfs_opendir(r->dir, AT_FDCWD, r->path, 0) == 0, "opendir");
	}
	ioq = ioq_create(depth, nthr);
	SYM_ASSERT(ioq, "ioq_create");
	SYM_ASSERT(ioq_capacity(ioq) == (size_t)depth, "initial capacity");
	int cancel = mode == 2 ? (int)sym_range("cancel", 0, n) : -1;
	for (int i = 0; i < n; ++i) {
		if (cancel == i) { ioq_cancel(ioq); cancelled = true; }
		request(i);
		if (mode == 1) {
			switch (sym_choice("step", 3)) {
			case 0: break;
			case 1: ioq_submit(ioq); pop(false); break;
			case 2: ioq_submit(ioq); if (ndone < nsent) pop(true); break;
			}
		} else if (mode == 3) {
			ioq_submit(ioq);
			if (ndone + 1 < nsent) pop(false);
		}
		if (ioq_capacity(ioq) == 0) { ioq_submit(ioq); pop(true); }
	}
	if (cancel == n) { ioq_cancel(ioq); cancelled = true; }
	ioq_submit(ioq);
	while (ndone < nsent) pop(true);
	SYM_ASSERT(!ioq_pop(ioq, true), "a completion nobody asked for");
	ioq_destroy(ioq);
	for (int i = 0; i < n; ++i) SYM_ASSERT(req[i].done == req[i].sent, "a request was lost");
	SYM_ASSERT(mfs_badclose == 0, "a descriptor was closed twice");
	if (!cancelled) SYM_ASSERT(mfs_open_fds() == 0, "descriptors leaked");
	sym_cover("done");
}
