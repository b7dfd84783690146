// Environment model: limits, clock, users, mounts, signals, processes.
#include "mos.h"
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <mntent.h>
#include <pwd.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

struct timespec menv_now = {1700000000, 0};
unsigned menv_umask = 022;
unsigned long menv_nofile_cur = 1024, menv_nofile_max = 1024;
int menv_nproc = 1;
int menv_isatty;
struct mpw menv_users[8], menv_groups[8];
int menv_nusers, menv_ngroups, menv_pw_err, menv_pw_lookups;
struct mmnt menv_mounts[8];
int menv_nmounts, menv_mtab_err;
const char *menv_vars[16][2];
struct mspawn mproc[32];
int mproc_n;
int (*mproc_hook)(struct mspawn *p);
size_t mproc_arg_max = 1 << 20;

void menv_init(void) {
	menv_users[0] = (struct mpw){"root", 0};
	menv_users[1] = (struct mpw){"user", 1000};
	menv_nusers = 2;
	menv_groups[0] = (struct mpw){"root", 0};
	menv_groups[1] = (struct mpw){"users", 1000};
	menv_ngroups = 2;
}
char *MDL(getenv)(const char *name) {
	for (int i = 0; i < 16 && menv_vars[i][0]; ++i)
		if (strcmp(menv_vars[i][0], name) == 0) return (char *)menv_vars[i][1];
	return NULL;
}
int MDL(getrlimit)(int r, struct rlimit *rl) { rl->rlim_cur = menv_nofile_cur; rl->rlim_max = menv_nofile_max; return 0; }
int MDL(setrlimit)(int r, const struct rlimit *rl) { if (rl->rlim_cur > menv_nofile_max) { errno = EPERM; return -1; } menv_nofile_cur = rl->rlim_cur; return 0; }
mode_t MDL(umask)(mode_t m) { mode_t o = menv_umask; menv_umask = m; return o; }
int MDL(clock_gettime)(clockid_t c, struct timespec *ts) { *ts = menv_now; return 0; }
int MDL(sched_getaffinity)(pid_t p, size_t n, void *set) { memset(set, 0, n); return 0; }
int MDL(__sched_cpucount)(size_t n, const void *set) { return menv_nproc; }
int MDL(isatty)(int fd) { if (fd < 0 || fd > 2 || !(menv_isatty >> fd & 1)) { errno = ENOTTY; return 0; } return 1; }
pid_t MDL(getpid)(void) { return 4242; }
int MDL(ioctl)(int fd, unsigned long r, ...) { errno = ENOTTY; return -1; }
long MDL(sysconf)(int n) {
	switch (n) {
	case _SC_NPROCESSORS_ONLN: return menv_nproc;
	case _SC_ARG_MAX: return mproc_arg_max;
	case _SC_PAGESIZE: return 4096;
	case _SC_SPAWN: return 200809;
	case _SC_GETPW_R_SIZE_MAX: case _SC_GETGR_R_SIZE_MAX: return 256;
	case _SC_OPEN_MAX: return menv_nofile_cur;
	case _SC_IOV_MAX: return 1024;
	case _SC_LINE_MAX: return 2048;
	}
	return 200809;
}
size_t MDL(confstr)(int n, char *buf, size_t len) {
	const char *s = "/bin";
	size_t k = strlen(s) + 1;
	if (buf && len) { size_t m = k < len ? k : len; memcpy(buf, s, m); buf[m - 1] = 0; }
	return k;
}
char *MDL(ctermid)(char *s) { return "/dev/tty"; }
int MDL(tcgetpgrp)(int fd) { return 1; }
void MDL(tzset)(void) {}
// A local time zone with daylight saving time in effect all year: standard
// time is menv_gmtoff seconds ahead of UTC, daylight time menv_dst more.
long menv_gmtoff, menv_dst;
struct tm *MDL(localtime_r)(const time_t *tp, struct tm *tm) {
	if (!menv_gmtoff && !menv_dst) return gmtime_r(tp, tm);
	time_t t = *tp + menv_gmtoff + menv_dst;
	struct tm *r = gmtime_r(&t, tm);
	if (r) { tm->tm_isdst = menv_dst != 0; tm->tm_gmtoff = menv_gmtoff + menv_dst; tm->tm_zone = "XST"; }
	return r;
}
time_t MDL(mktime)(struct tm *tm) {
	struct tm copy = *tm;
	time_t t = timegm(&copy) - menv_gmtoff;
	if (tm->tm_isdst) t -= menv_dst;
	if (sym_is_symbolic(t)) { if (t != -1) return t; t = -1; }
	MDL(localtime_r)(&t, tm);
	return t;
}
long MDL(syscall)(long n, ...) { errno = ENOSYS; return -1; }
int MDL(getloadavg)(double *d, int n) { return -1; }

// users and groups
static int fill(char *dst, size_t n, const char *s, char **out) {
	size_t k = strlen(s) + 1;
	if (k > n) return ERANGE;
	memcpy(dst, s, k);
	*out = dst;
	return 0;
}
static int pw(struct mpw *m, struct passwd *p, char *buf, size_t n, struct passwd **res) {
	*res = NULL;
	memset(p, 0, sizeof(*p));
	int e = fill(buf, n, m->name, &p->pw_name);
	if (e) return e;
	p->pw_uid = m->id;
	p->pw_passwd = p->pw_gecos = p->pw_dir = p->pw_shell = p->pw_name;
	*res = p;
	return 0;
}
int MDL(getpwnam_r)(const char *name, struct passwd *p, char *buf, size_t n, struct passwd **res) {
	menv_pw_lookups++;
	*res = NULL;
	if (menv_pw_err) return menv_pw_err;
	for (int i = 0; i < menv_nusers; ++i) if (strcmp(menv_users[i].name, name) == 0) return pw(&menv_users[i], p, buf, n, res);
	return 0;
}
int MDL(getpwuid_r)(uid_t uid, struct passwd *p, char *buf, size_t n, struct passwd **res) {
	menv_pw_lookups++;
	*res = NULL;
	if (menv_pw_err) return menv_pw_err;
	for (int i = 0; i < menv_nusers; ++i) if (menv_users[i].id == uid) return pw(&menv_users[i], p, buf, n, res);
	return 0;
}
static char *nomem[] = {NULL};
static int gr(struct mpw *m, struct group *p, char *buf, size_t n, struct group **res) {
	*res = NULL;
	memset(p, 0, sizeof(*p));
	int e = fill(buf, n, m->name, &p->gr_name);
	if (e) return e;
	p->gr_gid = m->id;
	p->gr_passwd = p->gr_name;
	p->gr_mem = nomem;
	*res = p;
	return 0;
}
int MDL(getgrnam_r)(const char *name, struct group *p, char *buf, size_t n, struct group **res) {
	menv_pw_lookups++;
	*res = NULL;
	if (menv_pw_err) return menv_pw_err;
	for (int i = 0; i < menv_ngroups; ++i) if (strcmp(menv_groups[i].name, name) == 0) return gr(&menv_groups[i], p, buf, n, res);
	return 0;
}
int MDL(getgrgid_r)(gid_t gid, struct group *p, char *buf, size_t n, struct group **res) {
	menv_pw_lookups++;
	*res = NULL;
	if (menv_pw_err) return menv_pw_err;
	for (int i = 0; i < menv_ngroups; ++i) if (menv_groups[i].id == gid) return gr(&menv_groups[i], p, buf, n, res);
	return 0;
}

// mounts
static int mnt_pos;
static struct mntent mnt_ent;
void *MDL(setmntent)(const char *f, const char *m) {
	if (menv_mtab_err) { errno = menv_mtab_err; return NULL; }
	mnt_pos = 0;
	return &mnt_pos;
}
struct mntent *MDL(getmntent)(void *f) {
	if (mnt_pos >= menv_nmounts) return NULL;
	struct mmnt *m = &menv_mounts[mnt_pos++];
	mnt_ent.mnt_dir = (char *)m->dir;
	mnt_ent.mnt_type = (char *)m->type;
	mnt_ent.mnt_fsname = (char *)(m->fsname ? m->fsname : "dev");
	mnt_ent.mnt_opts = "rw";
	return &mnt_ent;
}
int MDL(endmntent)(void *f) { return 1; }

// signals
int MDL(sigemptyset)(sigset_t *s) { memset(s, 0, sizeof(*s)); return 0; }
int MDL(sigfillset)(sigset_t *s) { memset(s, 0xff, sizeof(*s)); return 0; }
int MDL(sigaddset)(sigset_t *s, int n) { if (n < 1 || n > 64) { errno = EINVAL; return -1; } ((unsigned long *)s)[0] |= 1UL << (n - 1); return 0; }
int MDL(sigdelset)(sigset_t *s, int n) { if (n < 1 || n > 64) { errno = EINVAL; return -1; } ((unsigned long *)s)[0] &= ~(1UL << (n - 1)); return 0; }
int MDL(sigismember)(const sigset_t *s, int n) { if (n < 1 || n > 64) { errno = EINVAL; return -1; } return ((unsigned long *)s)[0] >> (n - 1) & 1; }
int MDL(__libc_current_sigrtmin)(void) { return 34; }
int MDL(__libc_current_sigrtmax)(void) { return 64; }
struct sigaction menv_sigact[65];
int (*menv_sigfail)(int n); // make sigaction() fail
sigset_t menv_sigmask;
unsigned long menv_sigmask0;
static unsigned long ignored0;
void *menv_sig0(int n) { return ignored0 >> (n - 1) & 1 ? SIG_IGN : SIG_DFL; }
void menv_ignore(int n) { ignored0 |= 1UL << (n - 1); menv_sigact[n].sa_handler = SIG_IGN; }
int MDL(sigaction)(int n, const struct sigaction *a, struct sigaction *o) {
	if (n < 1 || n > 64) { errno = EINVAL; return -1; }
	if (a && menv_sigfail && menv_sigfail(n)) { errno = EINVAL; return -1; }
	if (o) *o = menv_sigact[n];
	if (a) menv_sigact[n] = *a;
	return 0;
}
void (*MDL(signal)(int n, void (*h)(int)))(int) {
	void (*o)(int) = menv_sigact[n].sa_handler;
	memset(&menv_sigact[n], 0, sizeof(menv_sigact[n]));
	menv_sigact[n].sa_handler = h;
	return o;
}
int MDL(pthread_sigmask)(int how, const sigset_t *s, sigset_t *o) {
	if (o) *o = menv_sigmask;
	if (s) {
		unsigned long m = ((unsigned long *)s)[0], *c = (unsigned long *)&menv_sigmask;
		if (how == SIG_BLOCK) *c |= m;
		else if (how == SIG_UNBLOCK) *c &= ~m;
		else *c = m;
	}
	return 0;
}
int MDL(sigprocmask)(int how, const sigset_t *s, sigset_t *o) { return MDL(pthread_sigmask)(how, s, o); }
int MDL(timer_create)(clockid_t c, void *e, void *t) { errno = EAGAIN; return -1; }
int MDL(timer_delete)(void *t) { return 0; }
int MDL(timer_settime)(void *t, int f, const void *n, void *o) { return 0; }
int MDL(setitimer)(int w, const void *n, void *o) { return 0; }

// processes: posix_spawn records the command; waitpid reports its status
struct act { int fd; struct act *next; };
struct actions { struct act *first; };
int MDL(posix_spawn_file_actions_init)(struct actions *a) { a->first = NULL; return 0; }
int MDL(posix_spawn_file_actions_destroy)(struct actions *a) { return 0; }
int MDL(posix_spawnattr_init)(void *a) { return 0; }
int MDL(posix_spawnattr_destroy)(void *a) { return 0; }
int MDL(posix_spawnattr_getflags)(void *a, short *f) { *f = 0; return 0; }
int MDL(posix_spawnattr_setflags)(void *a, short f) { return 0; }
int MDL(posix_spawn_file_actions_addopen)(struct actions *a, int fd, const char *p, int f, mode_t m) { return 0; }
int MDL(posix_spawn_file_actions_addclose)(struct actions *a, int fd) { return 0; }
int MDL(posix_spawn_file_actions_adddup2)(struct actions *a, int o, int n) { return 0; }
int MDL(posix_spawn_file_actions_addfchdir_np)(struct actions *a, int fd) {
	struct act *x = mos_alloc(sizeof(*x));
	x->fd = fd;
	x->next = a->first;
	a->first = x;
	return 0;
}
struct mnode *mfs_walk(struct mnode *base, const char *path);
int mproc_shared[4], mproc_fork_err;
static bool in_child;
static char *keep(struct mspawn *p, size_t *off, const char *s) {
	size_t k = strlen(s) + 1;
	if (*off + k > sizeof(p->buf)) __sym_fail("arguments too long for the model");
	char *d = p->buf + *off;
	memcpy(d, s, k);
	*off += k;
	return d;
}
static int do_exec(struct mnode *cwd, const char *exe, char **argv, bool spawn) {
	if (mproc_n >= 32) __sym_fail("too many processes for the model");
	struct mspawn *p = &mproc[mproc_n];
	memset(p, 0, sizeof(*p));
	p->cwd = cwd;
	size_t off = 0, total = 0;
	p->exe = keep(p, &off, exe);
	for (int i = 0; argv[i]; ++i) {
		total += strlen(argv[i]) + 1 + sizeof(char *);
		if (i >= 23) __sym_fail("too many arguments for the model");
		p->argv[i] = keep(p, &off, argv[i]);
		p->argc = i + 1;
	}
	p->total = total;
	for (int i = 3; i < MFS_MAXFD; ++i) p->leaked += mfs_fd[i].open && !mfs_fd[i].cloexec;
	p->nofile = menv_nofile_cur;
	p->sigmask = *(unsigned long *)&menv_sigmask;
	for (int i = 1; i <= 64; ++i) {
		// exec resets caught signals, but not ignored ones
		void *h = menv_sigact[i].sa_handler == SIG_IGN ? SIG_IGN : SIG_DFL, *h0 = menv_sig0(i) == SIG_IGN ? SIG_IGN : SIG_DFL;
		p->handlers += h != h0;
	}
	if (total > mproc_arg_max) return E2BIG;
	struct mnode *x = mfs_walk(cwd, exe);
	if (!x) return ENOENT;
	if (!(x->mode & 0100)) return EACCES;
	if (mproc_hook) {
		int err = mproc_hook(p);
		if (err) { p->err = err; return err; }
	}
	return 0;
}
static int do_spawn(pid_t *pid, const char *exe, struct actions *a, char **argv) {
	struct mnode *cwd = mfs_cwd;
	// the list is in reverse order: the last fchdir() comes first
	if (a && a->first) {
		int fd = a->first->fd;
		if (fd < 0 || fd >= MFS_MAXFD || !mfs_fd[fd].open) return EBADF;
		cwd = mfs_fd[fd].node;
	}
	int err = do_exec(cwd, exe, argv, true);
	if (err) return err;
	*pid = 5000 + mproc_n++;
	return 0;
}
static _Noreturn void end_child(uint64_t pid) {
	extern struct sym_region mfs_pipes;
	struct sym_region r[] = {{&mproc[mproc_n ? mproc_n - 1 : 0], sizeof(mproc[0])}, {&mproc_n, sizeof(mproc_n)}, {mproc_shared, sizeof(mproc_shared)}, mfs_pipes, {NULL, 0}};
	__sym_fork_end(pid, r);
}
int MDL(_Fork)(void) {
	if (mproc_fork_err) { errno = mproc_fork_err; return -1; }
	int r = __sym_fork();
	if (r == 0) in_child = true;
	return r;
}
int MDL(fork)(void) { return MDL(_Fork)(); }
int MDL(execve)(const char *exe, char **argv, char **envp) {
	if (!in_child) __sym_fail("execve() in the parent");
	int err = do_exec(mfs_cwd, exe, argv, false);
	if (err) { errno = err; return -1; }
	++mproc_n;
	end_child(5000 + mproc_n - 1);
}
void MDL(_Exit)(int st) {
	if (in_child) end_child(6000 + (st & 255));
	__sym_fail("_Exit() in the parent");
}
int MDL(posix_spawn)(pid_t *pid, const char *exe, struct actions *a, void *attr, char **argv, char **envp) { return do_spawn(pid, exe, a, argv); }
int MDL(posix_spawnp)(pid_t *pid, const char *exe, struct actions *a, void *attr, char **argv, char **envp) { return do_spawn(pid, exe, a, argv); }
pid_t MDL(waitpid)(pid_t pid, int *status, int flags) {
	if (pid >= 6000) { if (status) *status = (pid - 6000) << 8; return pid; }
	int i = pid - 5000;
	if (i < 0 || i >= mproc_n) { errno = ECHILD; return -1; }
	if (status) *status = mproc[i].status;
	return pid;
}

int bfs_run(int argc, const char **argv) {
	char **av = mos_alloc((argc + 1) * sizeof(char *));
	for (int i = 0; i < argc; ++i) av[i] = (char *)argv[i];
	av[argc] = NULL;
	extern int bfs_main(int, char **);
	return bfs_main(argc, av);
}
