// stdio model: captured streams with injectable failures.
#include "mos.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int vsnprintf(char *, size_t, const char *, va_list);
int snprintf(char *, size_t, const char *, ...);

struct mfile mio_out, mio_err, mio_in;
struct mfile *mio_files[8];
int mio_nfiles;
long mio_new_limit = -1;
int mio_new_err = 28, mio_new_close;
bool mio_new_eager;
void *MDL(stdout) = &mio_out, *MDL(stderr) = &mio_err, *MDL(stdin) = &mio_in;

int MDL(close)(int fd);
int MDL(fcntl)(int fd, int cmd, ...);

void mio_reset(struct mfile *f) {
	int fd = f->fd;
	struct mnode *n = f->node;
	char *b = f->buf;
	size_t cap = f->cap;
	memset(f, 0, sizeof(*f));
	f->fd = fd;
	f->node = n;
	f->buf = b;
	f->cap = cap;
	f->limit = -1;
	f->limit_err = ENOSPC;
}
void mio_init(void) {
	mio_reset(&mio_out);
	mio_reset(&mio_err);
	mio_reset(&mio_in);
	mio_in.fd = 0;
	mio_out.fd = 1;
	mio_err.fd = 2;
	mio_err.eager = true;
	mio_nfiles = 0;
}
static void room(struct mfile *f, size_t n) {
	if (f->len + n + 1 > f->cap) {
		size_t nc = (f->len + n + 1) * 2 + 256;
		char *b = mos_alloc(nc);
		if (f->len) memcpy(b, f->buf, f->len);
		// leaked on purpose: earlier pointers stay valid
		f->buf = b;
		f->cap = nc;
	}
}
void mio_str(struct mfile *f) {
	room(f, 1);
	f->buf[f->len] = 0;
}
static bool emit(struct mfile *f, const char *s, size_t n) {
	if (f->closed) __sym_fail("write to a closed stream");
	room(f, n);
	memcpy(f->buf + f->len, s, n);
	f->len += n;
	if (f->limit >= 0 && f->eager && (long)f->len > f->limit) {
		f->err = true;
		errno = f->limit_err;
		return false;
	}
	return true;
}
size_t MDL(fwrite)(const void *p, size_t sz, size_t n, struct mfile *f) { return emit(f, p, sz * n) ? n : 0; }
size_t MDL(fwrite_unlocked)(const void *p, size_t sz, size_t n, struct mfile *f) { return emit(f, p, sz * n) ? n : 0; }
int MDL(fputs)(const char *s, struct mfile *f) { return emit(f, s, strlen(s)) ? 1 : -1; }
int MDL(fputs_unlocked)(const char *s, struct mfile *f) { return emit(f, s, strlen(s)) ? 1 : -1; }
int MDL(fputc)(int c, struct mfile *f) { char ch = c; return emit(f, &ch, 1) ? (unsigned char)c : -1; }
int MDL(putc)(int c, struct mfile *f) { char ch = c; return emit(f, &ch, 1) ? (unsigned char)c : -1; }
int MDL(putc_unlocked)(int c, struct mfile *f) { char ch = c; return emit(f, &ch, 1) ? (unsigned char)c : -1; }
int MDL(fputc_unlocked)(int c, struct mfile *f) { char ch = c; return emit(f, &ch, 1) ? (unsigned char)c : -1; }
int MDL(putchar)(int c) { char ch = c; return emit(&mio_out, &ch, 1) ? (unsigned char)c : -1; }
int MDL(puts)(const char *s) { return emit(&mio_out, s, strlen(s)) && emit(&mio_out, "\n", 1) ? 1 : -1; }
int MDL(vfprintf)(struct mfile *f, const char *fmt, va_list ap) {
	va_list ap2;
	va_copy(ap2, ap);
	char small[256];
	int n = vsnprintf(small, sizeof(small), fmt, ap);
	if (n < 0) return -1;
	if ((size_t)n < sizeof(small)) {
		va_end(ap2);
		return emit(f, small, n) ? n : -1;
	}
	char *b = mos_alloc(n + 1);
	vsnprintf(b, n + 1, fmt, ap2);
	va_end(ap2);
	bool ok = emit(f, b, n);
	__sym_free(b);
	return ok ? n : -1;
}
int MDL(fprintf)(struct mfile *f, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int r = MDL(vfprintf)(f, fmt, ap);
	va_end(ap);
	return r;
}
int MDL(printf)(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int r = MDL(vfprintf)(&mio_out, fmt, ap);
	va_end(ap);
	return r;
}
int MDL(vprintf)(const char *fmt, va_list ap) { return MDL(vfprintf)(&mio_out, fmt, ap); }
static struct mfile *by_fd(int fd) {
	if (fd == 1) return &mio_out;
	if (fd == 2) return &mio_err;
	for (int i = 0; i < mio_nfiles; ++i) if (!mio_files[i]->closed && mio_files[i]->fd == fd) return mio_files[i];
	return NULL;
}
int MDL(vdprintf)(int fd, const char *fmt, va_list ap) {
	struct mfile *f = by_fd(fd);
	return f ? MDL(vfprintf)(f, fmt, ap) : -1;
}
int MDL(dprintf)(int fd, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int r = MDL(vdprintf)(fd, fmt, ap);
	va_end(ap);
	return r;
}
// what has been written through this stream, at the offset of its own descriptor
static void to_file(struct mfile *f) {
	struct mnode *n = f->node;
	if (!n || !S_ISREG(n->mode) || f->wpos >= f->len) return;
	if (f->len > n->cap) {
		char *b = mos_alloc(f->len * 2 + 64);
		memset(b, 0, f->len * 2 + 64);
		if (n->len) memcpy(b, n->data, n->len);
		n->data = b;
		n->cap = f->len * 2 + 64;
	}
	memcpy(n->data + f->wpos, f->buf + f->wpos, f->len - f->wpos);
	if (f->len > n->len) n->len = n->size = f->len;
	f->wpos = f->len;
}
static int flush(struct mfile *f) {
	if (f->limit >= 0 && (long)f->len > f->limit) {
		f->flushed = f->limit;
		if (f->eager) { errno = f->limit_err; return -1; }
		f->err = true;
		errno = f->limit_err;
		// glibc keeps unwritten data; it is discarded here so a later flush
		// succeeds, which is the harder case for the caller
		f->len = f->limit;
		to_file(f);
		return -1;
	}
	to_file(f);
	f->flushed = f->len;
	return 0;
}
int MDL(fflush)(struct mfile *f) {
	if (!f) return 0;
	if (f->closed) __sym_fail("fflush of a closed stream");
	return flush(f);
}
int MDL(ferror)(struct mfile *f) { return f->err; }
int MDL(feof)(struct mfile *f) { return f->eof; }
void MDL(clearerr)(struct mfile *f) { f->err = f->eof = false; }
int MDL(fileno)(struct mfile *f) { return f->fd; }
int MDL(fclose)(struct mfile *f) {
	if (f->closed) __sym_fail("double fclose");
	int r = flush(f);
	f->closed = true;
	f->nclose++;
	if (f->fd >= 0) MDL(close)(f->fd);
	if (f->close_err) { errno = f->close_err; return -1; }
	return r;
}
void *MDL(fdopen)(int fd, const char *mode) {
	(void)mode;
	if (mio_nfiles >= 8) { errno = ENOMEM; return NULL; }
	struct mfile *f = mos_alloc(sizeof(*f));
	memset(f, 0, sizeof(*f));
	f->fd = fd;
	f->limit = mio_new_limit;
	f->limit_err = mio_new_err;
	f->eager = mio_new_eager;
	f->close_err = mio_new_close;
	if (fd >= 0 && fd < MFS_MAXFD && mfs_fd[fd].node) {
		f->node = mfs_fd[fd].node;
		f->ibuf = f->node->data;
		f->ilen = f->node->len;
	}
	mio_files[mio_nfiles++] = f;
	return f;
}
void MDL(setbuf)(struct mfile *f, char *b) {}
int MDL(setvbuf)(struct mfile *f, char *b, int m, size_t n) { return 0; }
void MDL(flockfile)(struct mfile *f) {}
void MDL(funlockfile)(struct mfile *f) {}
int MDL(fgetc)(struct mfile *f) {
	if (f->ipos < f->ilen) return (unsigned char)f->ibuf[f->ipos++];
	f->eof = true;
	return -1;
}
int MDL(getc)(struct mfile *f) { return MDL(fgetc)(f); }
int MDL(getchar)(void) { return MDL(fgetc)(&mio_in); }
long mio_read_fail; // reading beyond this many bytes, less one, fails
static int read_error(struct mfile *f) {
	if (f->node && S_ISDIR(f->node->mode)) return EISDIR;
	return mio_read_fail && (long)f->ipos >= mio_read_fail - 1 ? EIO : 0;
}
ssize_t MDL(getdelim)(char **line, size_t *n, int delim, struct mfile *f) {
	if (read_error(f)) { errno = read_error(f); f->err = true; return -1; }
	size_t start = f->ipos;
	if (start >= f->ilen) { f->eof = true; return -1; }
	size_t i = start;
	bool found = false;
	while (i < f->ilen) {
		if (mio_read_fail && (long)i >= mio_read_fail - 1) { f->err = true; break; } // what was read so far is returned
		if ((unsigned char)f->ibuf[i++] == (unsigned char)delim) { found = true; break; }
	}
	if (!found) f->eof = true;
	size_t len = i - start;
	if (!*line || *n < len + 1) {
		if (*line) __sym_free(*line);
		*line = mos_alloc(len + 1);
		*n = len + 1;
	}
	memcpy(*line, f->ibuf + start, len);
	(*line)[len] = 0;
	f->ipos = i;
	return len;
}
ssize_t MDL(getline)(char **line, size_t *n, struct mfile *f) { return MDL(getdelim)(line, n, '\n', f); }
void MDL(perror)(const char *s) { MDL(fprintf)(&mio_err, "%s: %s\n", s, strerror(errno)); }
