// Native runtime: replays a counterexample file against the natively compiled code.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <locale.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "sym.h"

static FILE *in;
static char *line;
static size_t cap;
static char **params;
static int nparams;

static char *next(const char *name, char *kind) {
	// sequential, skipping schedule entries
	while (in) {
		ssize_t n = getline(&line, &cap, in);
		if (n <= 0) { fclose(in); in = NULL; break; }
		if (line[n - 1] == '\n') line[n - 1] = 0;
		char *sp = strchr(line, ' ');
		if (!sp) continue;
		*sp = 0;
		if (strcmp(line, "__sched") == 0) continue;
		if (strcmp(line, name) != 0) {
			fprintf(stderr, "REPLAY-MISMATCH: wanted %s, file has %s\n", name, line);
			fclose(in); in = NULL;
			_exit(43);
		}
		*kind = sp[1];
		return sp + 3;
	}
	return NULL;
}
static uint64_t nextv(const char *name) { char k; char *s = next(name, &k); return s ? strtoull(s, NULL, 0) : 0; }
uint64_t sym_u64(const char *n) { return nextv(n); }
uint32_t sym_u32(const char *n) { return nextv(n); }
uint16_t sym_u16(const char *n) { return nextv(n); }
uint8_t sym_u8(const char *n) { return nextv(n); }
int sym_bool(const char *n) { return nextv(n) != 0; }
uint64_t sym_range(const char *n, uint64_t lo, uint64_t hi) { if (!in) return lo; uint64_t v = nextv(n); return v < lo || v > hi ? lo : v; }
int sym_choice(const char *n, uint64_t k) { (void)k; return nextv(n); }
void sym_mem(void *p, size_t n, const char *name) {
	char k; char *s = next(name, &k);
	memset(p, 0, n);
	for (size_t i = 0; s && i < n && s[2 * i] && s[2 * i] != '\n'; ++i) { unsigned v; sscanf(s + 2 * i, "%2x", &v); ((unsigned char *)p)[i] = v; }
}
static void finish(int rc) { fflush(NULL); _exit(rc); }
void sym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption failed\n"); finish(44); } }
void __sym_assert(int c, const char *m) { if (!c) { fprintf(stderr, "REPLAY-FAIL: %s\n", m); finish(42); } }
void __sym_fail(const char *m) { fprintf(stderr, "REPLAY-FAIL: %s\n", m); finish(42); abort(); }
void sym_cover(const char *l) { (void)l; }
void sym_note(const char *s) { fprintf(stderr, "note: %s\n", s); }
void sym_note_int(const char *s, uint64_t v) { fprintf(stderr, "note: %s=%lld\n", s, (long long)v); }
void sym_print(const char *s, uint64_t v) { fprintf(stderr, "print: %s %lld\n", s, (long long)v); }
void sym_done(void) { finish(0); abort(); }
uint64_t sym_concretize(uint64_t x) { return x; }
int sym_is_symbolic(uint64_t x) { (void)x; return 0; }
int sym_may(int c) { return c; }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sym_symbolic(void) { return 0; }
size_t sym_heap_live(void) { return 0; }
long sym_param(const char *name, long d) {
	size_t l = strlen(name);
	for (int i = 0; i < nparams; ++i) if (strncmp(params[i], name, l) == 0 && params[i][l] == '=') return atol(params[i] + l + 1);
	return d;
}
#ifdef SYM_SCHED
void tsched_open(const char *path);
#else
void *__sym_malloc(size_t n, size_t align, int zero) {
	void *p = NULL;
	if (align <= 16) p = malloc(n);
	else if (posix_memalign(&p, align, n) != 0) p = NULL;
	if (p && zero) memset(p, 0, n);
	return p;
}
void __sym_free(void *p) { free(p); }
size_t __sym_objsize(void *p) { return malloc_usable_size(p); }
void __sym_yield(void) {}
void __sym_acquire(uint64_t k) {}
void __sym_release(uint64_t k) {}
#endif
struct shared { int rc; uint64_t pid; struct sym_region r[16]; char data[1 << 20]; };
static struct shared *sh;
int __sym_fork(void) {
	sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	fflush(NULL);
	pid_t p = fork();
	if (p == 0) return 0;
	int st;
	waitpid(p, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 45);
	char *d = sh->data;
	for (int i = 0; sh->r[i].p; ++i) { memcpy(sh->r[i].p, d, sh->r[i].n); d += sh->r[i].n; }
	return sh->pid;
}
void __sym_fork_end(uint64_t pid, struct sym_region *keep) {
	sh->pid = pid;
	char *d = sh->data;
	int i = 0;
	for (; keep[i].p; ++i) { sh->r[i] = keep[i]; memcpy(d, keep[i].p, keep[i].n); d += keep[i].n; }
	sh->r[i].p = NULL;
	finish(0);
	abort();
}
int main(int argc, char **argv) {
	// usage: replay INPUTS [name=value...]
	setlocale(LC_ALL, "C.UTF-8");
	setenv("TZ", "UTC", 1);
	if (argc > 1) in = fopen(argv[1], "r");
#ifdef SYM_SCHED
	tsched_open(argc > 1 ? argv[1] : NULL);
#endif
	params = argv + 2; nparams = argc - 2; if (nparams < 0) nparams = 0;
	alarm(120);
	harness();
	fprintf(stderr, "REPLAY: completed without a failure\n");
	finish(0);
}
