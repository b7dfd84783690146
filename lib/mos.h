// Model operating system: an in-memory file system, stdio, processes and
// environment.  The same source runs under the symbolic executor and natively.
#ifndef MOS_H
#define MOS_H
#include "sym.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <time.h>

// allocations of the model itself (never made to fail)
static inline void *mos_alloc(size_t n) { return __sym_malloc(n, 16, 0); }

#ifndef MFS_MAXENT
#define MFS_MAXENT 12
#endif
#ifndef MFS_MAXFD
#define MFS_MAXFD 64
#endif

struct mnode;
struct ment {
	const char *name;
	struct mnode *node;
	unsigned char type; // d_type reported by getdents
	bool gone;
};
// extended attributes, access control lists and capabilities (none if missing)
struct mattr {
	int err;               // every request fails
	int nx;                // extended attributes
	const char *xname[3];
	int xlen[3];
	int nacl[2];           // entries of the access and default lists, -1 for no list
	int tag[2][5];
	const char *caps;      // NULL: no capabilities
};
struct mnode {
	struct mattr *attr;
	mode_t mode;
	uint32_t uid, gid;
	uint64_t ino, nlink, size, blocks;
	uint32_t dev_major, dev_minor, rdev_major, rdev_minor;
	uint64_t mnt_id;
	struct timespec atime, btime, ctime, mtime;
	unsigned stx_mask; // extra mask bits to clear
	uint64_t attrs;
	const char *target; // symlinks
	char *data;         // regular files
	size_t len, cap;
	struct mnode *parent;
	int nent;
	struct ment ent[MFS_MAXENT];
	int id;             // harness tag
	bool gone;          // unlinked
	bool mounted;       // d_ino in the listing differs from the node's (mount point)
	int err_open, err_stat, err_readdir, err_unlink, err_access; // errno to report, 0 for success
	int err_after;      // readdir fails only after this many entries
	int nopen, nstat, nread; // counters
};
struct mfd {
	bool open, cloexec, path;
	struct mnode *node;
	size_t pos;
	int flags;
	int pipe;       // 1+index of pipe, 0 = none
};

extern struct mnode *mfs_root, *mfs_cwd;
extern struct mfd mfs_fd[MFS_MAXFD];
extern int mfs_nofile;       // descriptors available (EMFILE beyond)
extern int mfs_nopen, mfs_peak;
extern int mfs_badclose;     // close() of a descriptor that is not open
extern int mfs_badfd;        // other uses of a descriptor that is not open
extern int mfs_chunk;        // entries returned per getdents call (0: all that fit)
extern int mfs_path_max;
extern bool mfs_no_statx;    // statx fails with this errno
extern int mfs_statx_err;
extern int mfs_dt_unknown;   // report DT_UNKNOWN for every entry
extern int mfs_nunlink;
extern bool mfs_proc;         // /proc/self/fd works
extern int mfs_attr_open;    // attribute objects not freed yet
extern bool mfs_big;
extern struct mnode *mfs_unlinked[32];
extern int (*mfs_fault)(const char *op, struct mnode *node); // errno to inject or 0

void mfs_init(void);
struct mnode *mfs_new(mode_t mode);
struct ment *mfs_add(struct mnode *dir, const char *name, struct mnode *node);
struct mnode *mfs_mkdir(struct mnode *dir, const char *name);
struct mnode *mfs_mkfile(struct mnode *dir, const char *name, const char *data);
struct mnode *mfs_symlink(struct mnode *dir, const char *name, const char *target);
struct mnode *mfs_lookup(const char *path); // follows symlinks
int mfs_open_fds(void); // descriptors open beyond 0..2

// stdio
struct mfile {
	int fd;
	struct mnode *node;
	char *buf;       // everything ever written through this stream
	size_t len, cap;
	size_t flushed;  // bytes successfully flushed
	size_t wpos;     // bytes that reached the file
	long limit;      // bytes the underlying file accepts, -1 unlimited
	int limit_err;
	bool eager;      // errors at write time instead of flush time
	bool err, eof, closed;
	char *ibuf;
	size_t ipos, ilen;
	int close_err;
	int nclose;
};
extern struct mfile mio_out, mio_err, mio_in;
extern struct mfile *mio_files[8];
extern int mio_nfiles;
void mio_init(void);
void mio_reset(struct mfile *f);
void mio_str(struct mfile *f); // NUL-terminate the captured output
extern long mio_new_limit;     // limit for streams opened later
extern int mio_new_err;
extern long mio_read_fail;

// environment
extern struct timespec menv_now;
extern long menv_gmtoff, menv_dst; // local time zone
extern unsigned menv_umask;
extern unsigned long menv_nofile_cur, menv_nofile_max;
extern int menv_nproc;
extern int menv_isatty; // bit mask of ttys
struct mpw { const char *name; uint32_t id; };
extern struct mpw menv_users[8], menv_groups[8];
extern int menv_nusers, menv_ngroups;
extern int menv_pw_err;      // errno for lookups
extern int menv_pw_lookups;
struct mmnt { const char *dir, *type, *fsname; };
extern struct mmnt menv_mounts[8];
extern int menv_nmounts, menv_mtab_err;
extern const char *menv_vars[16][2];
void menv_init(void);

// processes
struct mspawn {
	const char *exe;
	char *argv[24];
	int argc;
	size_t total;
	struct mnode *cwd;
	int err;
	int status;
	int leaked;           // descriptors above 2 the process inherits
	unsigned long nofile; // its soft descriptor limit
	unsigned long sigmask;
	int handlers;         // signals that do not have their original disposition
	char buf[512];        // exe and argv
};
extern int mproc_shared[4]; // survives fork(): for hooks
extern int mproc_fork_err;
extern unsigned long menv_sigmask0;
void *menv_sig0(int n);
extern struct mspawn mproc[32];
extern int mproc_n;
extern int (*mproc_hook)(struct mspawn *p); // returns errno or 0; may set status
extern size_t mproc_arg_max; // E2BIG beyond

// whole program
int bfs_run(int argc, const char **argv); // runs main(), returns the exit status
extern int bfs_main(int, char **);
#endif
