// In-memory POSIX file system with descriptor accounting and injectable errors.
#include "mos.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sysmacros.h>
#include <unistd.h>
#ifndef AT_STATX_DONT_SYNC
#define AT_STATX_DONT_SYNC 0x4000
#endif

struct mnode *mfs_root, *mfs_cwd;
struct mfd mfs_fd[MFS_MAXFD];
int mfs_nofile = MFS_MAXFD, mfs_nopen, mfs_peak, mfs_badclose, mfs_badfd, mfs_chunk, mfs_path_max = PATH_MAX;
bool mfs_no_statx;
int mfs_statx_err;
int mfs_dt_unknown;
bool mfs_proc;
int mfs_nunlink;
bool mfs_big; // many concrete names: compare the first bytes first
struct mnode *mfs_unlinked[32];
int (*mfs_fault)(const char *op, struct mnode *node);
static uint64_t next_ino;
struct mpipe { char buf[64]; size_t n, r; int readers, writers; };
static struct mpipe pipes[4];
static int npipes;
struct sym_region mfs_pipes = {pipes, sizeof(pipes)};

struct mnode *mfs_new(mode_t mode) {
	struct mnode *n = __sym_malloc(sizeof(*n), 16, 1);
	n->mode = mode;
	n->ino = next_ino++;
	n->nlink = 1;
	n->dev_major = 0;
	n->dev_minor = 40;
	n->mnt_id = 1;
	n->uid = 1000;
	n->gid = 1000;
	n->atime.tv_sec = n->btime.tv_sec = n->ctime.tv_sec = n->mtime.tv_sec = 1700000000;
	return n;
}
static unsigned char dt(mode_t m) { return (m & S_IFMT) >> 12; }
struct ment *mfs_add(struct mnode *dir, const char *name, struct mnode *node) {
	if (dir->nent >= MFS_MAXENT) abort();
	struct ment *e = &dir->ent[dir->nent++];
	e->name = name;
	e->node = node;
	e->type = dt(node->mode);
	e->gone = false;
	if (!node->parent) node->parent = dir;
	return e;
}
struct mnode *mfs_mkdir(struct mnode *dir, const char *name) {
	struct mnode *n = mfs_new(S_IFDIR | 0755);
	n->nlink = 2;
	mfs_add(dir, name, n);
	return n;
}
struct mnode *mfs_mkfile(struct mnode *dir, const char *name, const char *data) {
	struct mnode *n = mfs_new(S_IFREG | 0644);
	if (data) {
		n->len = n->size = strlen(data);
		n->cap = n->len + 1;
		n->data = mos_alloc(n->cap);
		memcpy(n->data, data, n->cap);
	}
	mfs_add(dir, name, n);
	return n;
}
struct mnode *mfs_symlink(struct mnode *dir, const char *name, const char *target) {
	struct mnode *n = mfs_new(S_IFLNK | 0777);
	n->target = target;
	n->size = strlen(target);
	mfs_add(dir, name, n);
	return n;
}
void mfs_init(void) {
	next_ino = 100;
	mfs_root = mfs_new(S_IFDIR | 0755);
	mfs_root->parent = mfs_root;
	mfs_cwd = mfs_mkdir(mfs_root, "w");
	for (int i = 0; i < 3; ++i) {
		mfs_fd[i].open = true;
		mfs_fd[i].node = mfs_new(S_IFCHR | 0620);
		mfs_fd[i].node->rdev_major = 136;
		mfs_fd[i].flags = i ? O_WRONLY : O_RDONLY;
	}
	mfs_nopen = mfs_peak = 3;
}

static int fault(const char *op, struct mnode *n) {
	if (mfs_fault) {
		int e = mfs_fault(op, n);
		if (e) { errno = e; return -1; }
	}
	return 0;
}
static struct mfd *get(int fd) {
	if (fd < 0 || fd >= MFS_MAXFD || !mfs_fd[fd].open) {
		if (fd >= 0) mfs_badfd++;
		errno = EBADF;
		return NULL;
	}
	return &mfs_fd[fd];
}
static struct ment *child(struct mnode *dir, const char *name, size_t len) {
	for (int i = 0; i < dir->nent; ++i) {
		struct ment *e = &dir->ent[i];
		if (e->gone || (mfs_big && e->name[0] != name[0]) || (mfs_big && len > 1 && e->name[1] != name[1])) continue;
		if (!e->gone && strlen(e->name) == len && memcmp(e->name, name, len) == 0) return e;
	}
	return NULL;
}
// Returns the node (errno set on failure).  *last_dir/*last_name describe the
// final component's directory entry.
static struct mnode *walk(struct mnode *base, const char *path, bool follow, int depth, struct ment **ent) {
	size_t plen = strlen(path);
	if (plen == 0) { errno = ENOENT; return NULL; }
	if ((long)plen >= mfs_path_max) { errno = ENAMETOOLONG; return NULL; }
	struct mnode *cur = base;
	if (path[0] == '/') cur = mfs_root;
	const char *p = path;
	if (mfs_proc && strncmp(path, "/proc/self/fd/", 14) == 0) {
		int fd = 0;
		for (p += 14; *p >= '0' && *p <= '9'; ++p) fd = fd * 10 + (*p - '0');
		if (fd >= MFS_MAXFD || !mfs_fd[fd].open) { errno = ENOENT; return NULL; }
		cur = mfs_fd[fd].node;
	}
	if (ent) *ent = NULL;
	while (*p) {
		while (*p == '/') ++p;
		if (!*p) break;
		const char *q = p;
		while (*q && *q != '/') ++q;
		size_t len = q - p;
		const char *rest = q;
		while (*rest == '/') ++rest;
		bool last = !*rest;
		bool slash = *q == '/';
		if (!S_ISDIR(cur->mode)) { errno = ENOTDIR; return NULL; }
		if (cur->gone && cur != mfs_cwd) { errno = ENOENT; return NULL; }
		if (len > NAME_MAX) { errno = ENAMETOOLONG; return NULL; }
		struct mnode *next;
		struct ment *e = NULL;
		if (len == 1 && p[0] == '.') {
			next = cur;
		} else if (len == 2 && p[0] == '.' && p[1] == '.') {
			next = cur->parent ? cur->parent : cur;
		} else {
			e = child(cur, p, len);
			if (!e) { errno = ENOENT; return NULL; }
			next = e->node;
		}
		if (S_ISLNK(next->mode) && (!last || follow || slash)) {
			if (depth >= 8) { errno = ELOOP; return NULL; }
			struct mnode *t = walk(cur, next->target, true, depth + 1, NULL);
			if (!t) return NULL;
			next = t;
		}
		if (ent) *ent = last ? e : NULL;
		cur = next;
		p = q;
		if (slash && last && !S_ISDIR(cur->mode)) { errno = ENOTDIR; return NULL; }
	}
	return cur;
}
static struct mnode *at(int dfd, const char *path, bool follow, struct ment **ent) {
	struct mnode *base = mfs_cwd;
	if (path[0] != '/' && dfd != AT_FDCWD) {
		struct mfd *f = get(dfd);
		if (!f) return NULL;
		base = f->node;
		if (!S_ISDIR(base->mode)) { errno = ENOTDIR; return NULL; }
	}
	return walk(base, path, follow, 0, ent);
}
struct mnode *mfs_lookup(const char *path) { return walk(mfs_cwd, path, true, 0, NULL); }

static int alloc_fd(struct mnode *n, int flags) {
	for (int i = 0; i < MFS_MAXFD && i < mfs_nofile; ++i) {
		if (!mfs_fd[i].open) {
			struct mfd *f = &mfs_fd[i];
			memset(f, 0, sizeof(*f));
			f->open = true;
			f->node = n;
			f->flags = flags;
			f->cloexec = flags & O_CLOEXEC;
			f->path = flags & O_PATH;
			if (++mfs_nopen > mfs_peak) mfs_peak = mfs_nopen;
			return i;
		}
	}
	errno = EMFILE;
	return -1;
}
int mfs_open_fds(void) {
	int n = 0;
	for (int i = 3; i < MFS_MAXFD; ++i) n += mfs_fd[i].open;
	return n;
}
static int do_open(int dfd, const char *path, int flags, mode_t mode) {
	bool follow = !(flags & O_NOFOLLOW);
	struct mnode *n = at(dfd, path, follow, NULL);
	if (!n) {
		if (errno == ENOENT && (flags & O_CREAT)) {
			const char *s = strrchr(path, '/');
			if (s) { errno = ENOENT; return -1; }
			struct mnode *base = dfd == AT_FDCWD ? mfs_cwd : mfs_fd[dfd].node;
			char *nm = mos_alloc(strlen(path) + 1);
			memcpy(nm, path, strlen(path) + 1);
			n = mfs_mkfile(base, nm, "");
			n->mode = S_IFREG | (mode & 0777);
		} else {
			return -1;
		}
	} else if ((flags & O_CREAT) && (flags & O_EXCL)) {
		errno = EEXIST;
		return -1;
	}
	if (S_ISLNK(n->mode) && !(flags & O_PATH)) { errno = ELOOP; return -1; }
	if ((flags & O_DIRECTORY) && !S_ISDIR(n->mode)) { errno = ENOTDIR; return -1; }
	if (n->err_open) { errno = n->err_open; return -1; }
	if (fault("open", n)) return -1;
	int fd = alloc_fd(n, flags);
	if (fd >= 0) {
		n->nopen++;
		if ((flags & O_TRUNC) && S_ISREG(n->mode)) n->len = n->size = 0;
	}
	return fd;
}
int MDL(openat)(int dfd, const char *path, int flags, ...) {
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
	return do_open(dfd, path, flags, mode);
}
int MDL(open)(const char *path, int flags, ...) {
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
	return do_open(AT_FDCWD, path, flags, mode);
}
int MDL(close)(int fd) {
	if (fd < 0 || fd >= MFS_MAXFD || !mfs_fd[fd].open) {
		mfs_badclose++;
		errno = EBADF;
		return -1;
	}
	struct mfd *f = &mfs_fd[fd];
	if (f->pipe) {
		struct mpipe *p = &pipes[f->pipe - 1];
		if (f->flags & O_WRONLY) p->writers--; else p->readers--;
	}
	f->open = false;
	mfs_nopen--;
	if (f->node && fault("close", f->node)) return -1;
	return 0;
}
int MDL(fcntl)(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	struct mfd *f = get(fd);
	if (!f) return -1;
	switch (cmd) {
	case F_GETFD: return f->cloexec ? FD_CLOEXEC : 0;
	case F_SETFD: f->cloexec = arg & FD_CLOEXEC; return 0;
	case F_GETFL: return f->flags;
	case F_SETFL: f->flags = arg; return 0;
	case F_DUPFD:
	case F_DUPFD_CLOEXEC: {
		for (int i = (int)arg; i < MFS_MAXFD && i < mfs_nofile; ++i)
			if (!mfs_fd[i].open) {
				if (fault("dup", f->node)) return -1;
				mfs_fd[i] = *f;
				mfs_fd[i].cloexec = cmd == F_DUPFD_CLOEXEC;
				if (++mfs_nopen > mfs_peak) mfs_peak = mfs_nopen;
				if (f->pipe) { if (f->flags & O_WRONLY) pipes[f->pipe - 1].writers++; else pipes[f->pipe - 1].readers++; }
				return i;
			}
		errno = EMFILE;
		return -1;
	}
	}
	errno = EINVAL;
	return -1;
}
int MDL(dup)(int fd) { return MDL(fcntl)(fd, F_DUPFD, 0L); }
int MDL(dup2)(int o, int n) {
	struct mfd *f = get(o);
	if (!f) return -1;
	if (n < 0 || n >= MFS_MAXFD) { errno = EBADF; return -1; }
	if (o == n) return n;
	if (mfs_fd[n].open) MDL(close)(n);
	mfs_fd[n] = *f;
	mfs_fd[n].cloexec = false;
	mfs_nopen++;
	return n;
}
int MDL(pipe2)(int p[2], int flags) {
	int a = alloc_fd(NULL, O_RDONLY | flags);
	if (a < 0) return -1;
	int b = alloc_fd(NULL, O_WRONLY | flags);
	if (b < 0) { mfs_fd[a].open = false; mfs_nopen--; return -1; }
	int i = npipes++ % 4; // slots are reused: few pipes are open at once
	memset(&pipes[i], 0, sizeof(pipes[i]));
	pipes[i].readers = pipes[i].writers = 1;
	mfs_fd[a].pipe = mfs_fd[b].pipe = i + 1;
	p[0] = a;
	p[1] = b;
	return 0;
}
int MDL(pipe)(int p[2]) { return MDL(pipe2)(p, 0); }
ssize_t MDL(read)(int fd, void *buf, size_t n) {
	struct mfd *f = get(fd);
	if (!f) return -1;
	if (f->pipe) {
		struct mpipe *p = &pipes[f->pipe - 1];
		size_t k = p->n - p->r;
		if (k > n) k = n;
		memcpy(buf, p->buf + p->r, k);
		p->r += k;
		return k;
	}
	if (S_ISDIR(f->node->mode)) { errno = EISDIR; return -1; }
	if (fault("read", f->node)) return -1;
	size_t left = f->pos < f->node->len ? f->node->len - f->pos : 0;
	if (n > left) n = left;
	memcpy(buf, f->node->data + f->pos, n);
	f->pos += n;
	return n;
}
size_t MDL(fwrite)(const void *p, size_t sz, size_t n, struct mfile *f);
ssize_t MDL(write)(int fd, const void *buf, size_t n) {
	struct mfd *f = get(fd);
	if (!f) return -1;
	if (f->pipe) {
		struct mpipe *p = &pipes[f->pipe - 1];
		if (n > sizeof(p->buf) - p->n) n = sizeof(p->buf) - p->n;
		memcpy(p->buf + p->n, buf, n);
		p->n += n;
		return n;
	}
	if (fd == 1) return MDL(fwrite)(buf, 1, n, &mio_out);
	if (fd == 2) return MDL(fwrite)(buf, 1, n, &mio_err);
	return n;
}
static void fill_stat(struct mnode *n, struct stat *st) {
	memset(st, 0, sizeof(*st));
	st->st_mode = n->mode;
	st->st_uid = n->uid;
	st->st_gid = n->gid;
	st->st_ino = n->ino;
	st->st_nlink = n->nlink;
	st->st_size = n->size;
	st->st_blocks = n->blocks;
	st->st_blksize = 4096;
	st->st_dev = gnu_dev_makedev(n->dev_major, n->dev_minor);
	st->st_rdev = gnu_dev_makedev(n->rdev_major, n->rdev_minor);
	st->st_atim = n->atime;
	st->st_ctim = n->ctime;
	st->st_mtim = n->mtime;
}
static struct mnode *stat_node(int dfd, const char *path, int flags) {
	struct mnode *n;
	if (path[0] == 0) {
		if (!(flags & AT_EMPTY_PATH)) { errno = ENOENT; return NULL; }
		if (dfd == AT_FDCWD) n = mfs_cwd;
		else {
			struct mfd *f = get(dfd);
			if (!f) return NULL;
			n = f->node;
			return n;
		}
	} else {
		n = at(dfd, path, !(flags & AT_SYMLINK_NOFOLLOW), NULL);
	}
	if (!n) return NULL;
	n->nstat++;
	if (n->err_stat) { errno = n->err_stat; return NULL; }
	if (fault("stat", n)) return NULL;
	return n;
}
int MDL(fstatat)(int dfd, const char *path, struct stat *st, int flags) {
	struct mnode *n = stat_node(dfd, path, flags);
	if (!n) return -1;
	fill_stat(n, st);
	return 0;
}
int MDL(stat)(const char *path, struct stat *st) { return MDL(fstatat)(AT_FDCWD, path, st, 0); }
int MDL(lstat)(const char *path, struct stat *st) { return MDL(fstatat)(AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW); }
int MDL(fstat)(int fd, struct stat *st) { return MDL(fstatat)(fd, "", st, AT_EMPTY_PATH); }
int MDL(statx)(int dfd, const char *path, int flags, unsigned mask, struct statx *sx) {
	if (mfs_statx_err) { errno = mfs_statx_err; return -1; }
	struct mnode *n = stat_node(dfd, path, flags);
	if (!n) return -1;
	memset(sx, 0, sizeof(*sx));
	sx->stx_mask = (STATX_BASIC_STATS | STATX_BTIME
#ifdef STATX_MNT_ID
	                | STATX_MNT_ID
#endif
	                ) & ~n->stx_mask;
	sx->stx_mode = n->mode;
	sx->stx_uid = n->uid;
	sx->stx_gid = n->gid;
	sx->stx_ino = n->ino;
	sx->stx_nlink = n->nlink;
	sx->stx_size = n->size;
	sx->stx_blocks = n->blocks;
	sx->stx_blksize = 4096;
	sx->stx_attributes = n->attrs;
	sx->stx_dev_major = n->dev_major;
	sx->stx_dev_minor = n->dev_minor;
	sx->stx_rdev_major = n->rdev_major;
	sx->stx_rdev_minor = n->rdev_minor;
	sx->stx_atime.tv_sec = n->atime.tv_sec;
	sx->stx_atime.tv_nsec = n->atime.tv_nsec;
	sx->stx_btime.tv_sec = n->btime.tv_sec;
	sx->stx_btime.tv_nsec = n->btime.tv_nsec;
	sx->stx_ctime.tv_sec = n->ctime.tv_sec;
	sx->stx_ctime.tv_nsec = n->ctime.tv_nsec;
	sx->stx_mtime.tv_sec = n->mtime.tv_sec;
	sx->stx_mtime.tv_nsec = n->mtime.tv_nsec;
#ifdef STATX_MNT_ID
	sx->stx_mnt_id = n->mnt_id;
#endif
	return 0;
}
ssize_t MDL(getdents64)(int fd, void *buf, size_t size) {
	struct mfd *f = get(fd);
	if (!f) return -1;
	struct mnode *d = f->node;
	if (!S_ISDIR(d->mode)) { errno = ENOTDIR; return -1; }
	if (d->err_readdir && (int)f->pos >= d->err_after + 2) { errno = d->err_readdir; return -1; }
	if (fault("readdir", d)) return -1;
	d->nread++;
	char *p = buf;
	size_t used = 0;
	int count = 0;
	while ((int)f->pos < d->nent + 2) {
		size_t i = f->pos;
		const char *name;
		struct mnode *n;
		unsigned char type;
		if (i == 0) { name = "."; n = d; type = DT_DIR; }
		else if (i == 1) { name = ".."; n = d->parent ? d->parent : d; type = DT_DIR; }
		else {
			if (d->err_readdir && (int)i - 2 >= d->err_after && count > 0) break;
			struct ment *e = &d->ent[i - 2];
			if (e->gone) { f->pos++; continue; }
			name = e->name;
			n = e->node;
			type = mfs_dt_unknown ? DT_UNKNOWN : e->type;
		}
		size_t nl = strlen(name);
		size_t rl = (offsetof(struct dirent64, d_name) + nl + 1 + 7) & ~(size_t)7;
		if (used + rl > size) {
			if (count == 0) { errno = EINVAL; return -1; }
			break;
		}
		struct dirent64 *de = (void *)(p + used);
		de->d_ino = n->mounted ? 1 : n->ino;
		de->d_off = i + 1;
		de->d_reclen = rl;
		de->d_type = type;
		memcpy(p + used + offsetof(struct dirent64, d_name), name, nl + 1);
		used += rl;
		f->pos++;
		count++;
		if (mfs_chunk && count >= mfs_chunk) break;
	}
	return used;
}
ssize_t MDL(readlinkat)(int dfd, const char *path, char *buf, size_t size) {
	struct mnode *n = at(dfd, path, false, NULL);
	if (!n) return -1;
	if (!S_ISLNK(n->mode)) { errno = EINVAL; return -1; }
	if (fault("readlink", n)) return -1;
	size_t len = strlen(n->target);
	if (len > size) len = size;
	memcpy(buf, n->target, len);
	return len;
}
ssize_t MDL(readlink)(const char *path, char *buf, size_t size) { return MDL(readlinkat)(AT_FDCWD, path, buf, size); }
int MDL(unlinkat)(int dfd, const char *path, int flags) {
	struct ment *e = NULL;
	struct mnode *n = at(dfd, path, false, &e);
	if (!n) return -1;
	if (!e) { errno = (flags & AT_REMOVEDIR) ? EINVAL : EISDIR; return -1; }
	if (flags & AT_REMOVEDIR) {
		if (!S_ISDIR(n->mode)) { errno = ENOTDIR; return -1; }
		for (int i = 0; i < n->nent; ++i) if (!n->ent[i].gone) { errno = ENOTEMPTY; return -1; }
	} else if (S_ISDIR(n->mode)) {
		errno = EISDIR;
		return -1;
	}
	if (n->err_unlink) { errno = n->err_unlink; return -1; }
	if (fault("unlink", n)) return -1;
	e->gone = true;
	n->gone = true;
	if (mfs_nunlink < 32) mfs_unlinked[mfs_nunlink] = n;
	mfs_nunlink++;
	return 0;
}
int MDL(unlink)(const char *path) { return MDL(unlinkat)(AT_FDCWD, path, 0); }
int MDL(rmdir)(const char *path) { return MDL(unlinkat)(AT_FDCWD, path, AT_REMOVEDIR); }
int MDL(faccessat)(int dfd, const char *path, int mode, int flags) {
	struct mnode *n = at(dfd, path, !(flags & AT_SYMLINK_NOFOLLOW), NULL);
	if (!n) return -1;
	if (n->err_access) { errno = n->err_access; return -1; }
	if (mode == F_OK) return 0;
	unsigned bits = (n->mode >> 6) & 7;
	if ((bits & mode) != (unsigned)mode) { errno = EACCES; return -1; }
	return 0;
}
int MDL(access)(const char *path, int mode) { return MDL(faccessat)(AT_FDCWD, path, mode, 0); }
int MDL(fchdir)(int fd) {
	struct mfd *f = get(fd);
	if (!f) return -1;
	if (!S_ISDIR(f->node->mode)) { errno = ENOTDIR; return -1; }
	mfs_cwd = f->node;
	return 0;
}
int MDL(chdir)(const char *path) {
	struct mnode *n = at(AT_FDCWD, path, true, NULL);
	if (!n) return -1;
	if (!S_ISDIR(n->mode)) { errno = ENOTDIR; return -1; }
	mfs_cwd = n;
	return 0;
}
char *MDL(getcwd)(char *buf, size_t size) { errno = ENOENT; return NULL; }
int mfs_attr_open;
static struct mnode *attr_at(const char *path, bool follow) {
	struct mnode *n = at(AT_FDCWD, path, follow, NULL);
	if (n && n->attr && n->attr->err) { errno = n->attr->err; return NULL; }
	return n;
}
static ssize_t xlist(const char *path, bool follow) {
	struct mnode *n = attr_at(path, follow);
	if (!n) return -1;
	ssize_t len = 0;
	if (n->attr) for (int i = 0; i < n->attr->nx; ++i) len += strlen(n->attr->xname[i]) + 1;
	return len;
}
static ssize_t xget(const char *path, const char *name, bool follow) {
	struct mnode *n = attr_at(path, follow);
	if (!n) return -1;
	if (n->attr) for (int i = 0; i < n->attr->nx; ++i) if (strcmp(n->attr->xname[i], name) == 0) return n->attr->xlen[i];
	errno = ENODATA;
	return -1;
}
ssize_t MDL(llistxattr)(const char *path, char *buf, size_t n) { return xlist(path, false); }
ssize_t MDL(listxattr)(const char *path, char *buf, size_t n) { return xlist(path, true); }
ssize_t MDL(lgetxattr)(const char *path, const char *name, void *v, size_t n) { return xget(path, name, false); }
ssize_t MDL(getxattr)(const char *path, const char *name, void *v, size_t n) { return xget(path, name, true); }

// libacl: a missing access list is made up from the mode, a missing default list is empty
struct macl { int n, pos, tag[5]; };
struct macl *MDL(acl_get_file)(const char *path, unsigned type) {
	struct mnode *n = attr_at(path, true);
	if (!n) return NULL;
	int k = type == 0x8000 ? 0 : 1;
	if (k && !S_ISDIR(n->mode)) { errno = EACCES; return NULL; }
	struct macl *a = __sym_malloc(sizeof(*a), 16, 1);
	if (n->attr && n->attr->nacl[k] >= 0) {
		a->n = n->attr->nacl[k];
		for (int i = 0; i < a->n; ++i) a->tag[i] = n->attr->tag[k][i];
	} else if (!k) { a->n = 3; a->tag[0] = 1; a->tag[1] = 4; a->tag[2] = 0x20; }
	mfs_attr_open++;
	return a;
}
int MDL(acl_get_entry)(struct macl *a, int which, int **entry) {
	if (which == 0) a->pos = 0;
	if (a->pos >= a->n) return 0;
	*entry = &a->tag[a->pos++];
	return 1;
}
int MDL(acl_get_tag_type)(int *entry, int *tag) { *tag = *entry; return 0; }
int MDL(acl_free)(void *p) { mfs_attr_open--; return 0; }
const char **MDL(cap_get_file)(const char *path) {
	struct mnode *n = attr_at(path, true);
	if (!n) return NULL;
	if (!n->attr || !n->attr->caps) { errno = ENODATA; return NULL; }
	mfs_attr_open++;
	return &n->attr->caps;
}
char *MDL(cap_to_text)(const char **c, ssize_t *len) { mfs_attr_open++; return (char *)*c; }
int MDL(cap_free)(void *p) { mfs_attr_open--; return 0; }
struct mnode *mfs_walk(struct mnode *base, const char *path) { int e = errno; struct mnode *n = walk(base, path, false, 0, NULL); errno = e; return n; }
