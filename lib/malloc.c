// Allocation model: one allocation (or every one from some point on) fails.
#include "mos.h"
#include <errno.h>
#include <string.h>

int mem_armed;      // allocations may fail
int mem_persist;    // all later ones fail, too
int mem_failed;     // number of failures so far
int mem_count;      // allocations while armed
int mem_skip;       // this many succeed for sure

static bool fails(void) {
	if (!mem_armed) return false;
	if (mem_failed && !mem_persist) return false;
	int i = mem_count++;
	if (!mem_failed && (i < mem_skip || !sym_choice("fail", 2))) return false;
	if (sym_param("trap", -1) == i) __sym_fail("allocation failure trap"); // for debugging
	mem_failed++;
	errno = ENOMEM;
	return true;
}
void *MDL(malloc)(size_t n) {
	if (n > (size_t)1 << 26) { errno = ENOMEM; return NULL; }
	return fails() ? NULL : __sym_malloc(n, 16, 0);
}
void *MDL(calloc)(size_t n, size_t m) {
	size_t t;
	if (__builtin_mul_overflow(n, m, &t) || t > (size_t)1 << 26) { errno = ENOMEM; return NULL; }
	return fails() ? NULL : __sym_malloc(t, 16, 1);
}
void *MDL(realloc)(void *p, size_t n) {
	if (!p) return MDL(malloc)(n);
	if (n > (size_t)1 << 26) { errno = ENOMEM; return NULL; }
	if (fails()) return NULL;
	size_t old = __sym_objsize(p);
	void *q = __sym_malloc(n, 16, 0);
	memcpy(q, p, old < n ? old : n);
	__sym_free(p);
	return q;
}
int MDL(posix_memalign)(void **pp, size_t align, size_t n) {
	if (n > (size_t)1 << 26 || fails()) return ENOMEM;
	*pp = __sym_malloc(n, align, 0);
	return 0;
}
char *MDL(strndup)(const char *s, size_t n) {
	if (fails()) return NULL;
	size_t l = strnlen(s, n);
	char *p = __sym_malloc(l + 1, 16, 0);
	memcpy(p, s, l);
	p[l] = 0;
	return p;
}
char *MDL(strdup)(const char *s) { return MDL(strndup)(s, strlen(s)); }
