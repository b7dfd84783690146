// Model of the asynchronous I/O queue's interface: requests are executed at
// any time between submission and retrieval and come back in any order.
#include "prelude.h"
#include "mos.h"
#include "ioq.h"
#include "dir.h"
#include "stat.h"
#include "bfstd.h"
#include <errno.h>
#include <stdlib.h>

int mioq_budget = 6;  // symbolic scheduling decisions per run, then first-in first-out
int mioq_depth;       // overrides the queue depth
int mioq_created, mioq_destroyed, mioq_outstanding;

#ifndef MIOQ_MAX
#define MIOQ_MAX 64
#endif
struct ioq {
	size_t depth, size;
	bool cancel;
	int n;
	struct { struct ioq_ent *ent; bool submitted, done; } q[MIOQ_MAX];
};

struct ioq *ioq_create(size_t depth, size_t nthreads) {
	struct ioq *q = calloc(1, sizeof(*q));
	if (!q) return NULL;
	q->depth = mioq_depth ? mioq_depth : depth;
	mioq_created++;
	return q;
}
size_t ioq_capacity(const struct ioq *q) { return q->depth - q->size; }

static void execute(struct ioq *q, int i) {
	struct ioq_ent *e = q->q[i].ent;
	q->q[i].done = true;
	if (q->cancel && e->op != IOQ_CLOSE && e->op != IOQ_CLOSEDIR) { e->result = -EINTR; return; }
	switch (e->op) {
	case IOQ_NOP: e->result = 0; return;
	case IOQ_CLOSE: e->result = xclose(e->close.fd) < 0 ? -errno : 0; return;
	case IOQ_OPENDIR:
		e->result = bfs_opendir(e->opendir.dir, e->opendir.dfd, e->opendir.path, e->opendir.flags) < 0 ? -errno : 0;
		if (e->result >= 0 && (mioq_budget <= 0 || sym_bool("poll"))) bfs_polldir(e->opendir.dir);
		return;
	case IOQ_CLOSEDIR: e->result = bfs_closedir(e->closedir.dir) < 0 ? -errno : 0; return;
	case IOQ_STAT: e->result = bfs_stat(e->stat.dfd, e->stat.path, e->stat.flags, e->stat.buf) < 0 ? -errno : 0; return;
	}
}
static struct ioq_ent *request(struct ioq *q, enum ioq_op op, void *ptr) {
	if (q->cancel) { errno = EINTR; return NULL; }
	if (q->size >= q->depth) { errno = EAGAIN; return NULL; }
	if (q->n >= MIOQ_MAX) __sym_fail("too many requests for the model queue");
	struct ioq_ent *e = aligned_alloc(alignof(struct ioq_ent), sizeof(*e));
	if (!e) return NULL;
	e->op = op;
	e->ptr = ptr;
	e->result = -1;
	q->q[q->n].ent = e;
	q->q[q->n].submitted = q->q[q->n].done = false;
	q->n++;
	q->size++;
	mioq_outstanding++;
	return e;
}
int ioq_nop(struct ioq *q, enum ioq_nop_type type, void *ptr) {
	struct ioq_ent *e = request(q, IOQ_NOP, ptr);
	if (!e) return -1;
	e->nop.type = type;
	return 0;
}
int ioq_close(struct ioq *q, int fd, void *ptr) {
	struct ioq_ent *e = request(q, IOQ_CLOSE, ptr);
	if (!e) return -1;
	e->close.fd = fd;
	return 0;
}
int ioq_opendir(struct ioq *q, struct bfs_dir *dir, int dfd, const char *path, enum bfs_dir_flags flags, void *ptr) {
	struct ioq_ent *e = request(q, IOQ_OPENDIR, ptr);
	if (!e) return -1;
	e->opendir.dir = dir;
	e->opendir.dfd = dfd;
	e->opendir.path = path;
	e->opendir.flags = flags;
	return 0;
}
int ioq_closedir(struct ioq *q, struct bfs_dir *dir, void *ptr) {
	struct ioq_ent *e = request(q, IOQ_CLOSEDIR, ptr);
	if (!e) return -1;
	e->closedir.dir = dir;
	return 0;
}
int ioq_stat(struct ioq *q, int dfd, const char *path, enum bfs_stat_flags flags, struct bfs_stat *buf, void *ptr) {
	struct ioq_ent *e = request(q, IOQ_STAT, ptr);
	if (!e) return -1;
	e->stat.dfd = dfd;
	e->stat.path = path;
	e->stat.flags = flags;
	e->stat.buf = buf;
	return 0;
}
void ioq_submit(struct ioq *q) {
	for (int i = 0; i < q->n; ++i) {
		if (q->q[i].submitted) continue;
		q->q[i].submitted = true;
		// a worker may pick it up right away, or much later
		if (mioq_budget > 0) {
			mioq_budget--;
			if (sym_bool("eager")) execute(q, i);
		}
	}
}
struct ioq_ent *ioq_pop(struct ioq *q, bool block) {
	for (int i = 0; i < q->n; ++i) if (!q->q[i].submitted) __sym_fail("ioq_pop() with unsubmitted requests");
	if (q->size == 0) return NULL;
	if (q->n == 0) { if (block) __sym_fail("ioq_pop() would block forever"); return NULL; }
	int k = 0;
	if (mioq_budget > 0 && (q->n > 1 || !block)) {
		mioq_budget--;
		k = sym_choice("pop", q->n + !block);
		if (k == q->n) return NULL;
	}
	if (!q->q[k].done) execute(q, k);
	struct ioq_ent *e = q->q[k].ent;
	for (int i = k; i + 1 < q->n; ++i) q->q[i] = q->q[i + 1];
	q->n--;
	return e;
}
void ioq_free(struct ioq *q, struct ioq_ent *e) { q->size--; mioq_outstanding--; free(e); }
void ioq_cancel(struct ioq *q) { ioq_submit(q); q->cancel = true; }
void ioq_destroy(struct ioq *q) {
	if (!q) return;
	ioq_cancel(q);
	for (int i = 0; i < q->n; ++i) { if (!q->q[i].done) execute(q, i); free(q->q[i].ent); }
	mioq_destroyed++;
	free(q);
}
