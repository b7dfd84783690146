// Native replay of thread schedules.  The code under test is compiled with
// clang's thread sanitizer instrumentation, but linked with this runtime:
// threads are coroutines, every atomic operation is a scheduling point that
// follows the counterexample's schedule, and plain accesses are checked for
// happens-before races and use of freed memory.  Mirrors engine/main.cpp.
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <unistd.h>
#include "sym.h"

#define NT 6
enum { RUN = 1, WAIT, DONE };
static struct co { ucontext_t c; int st, err; bool sched, irq; uint64_t key; void (*fn)(void *); void *arg; } th[NT];
static int nth = 1, cur, irq_parent = -1;
static FILE *sin_;
void tsched_open(const char *path) { sin_ = path ? fopen(path, "r") : NULL; th[0].st = RUN; }
static int next_sched(int dflt) {
	char buf[4096];
	while (sin_ && fgets(buf, sizeof(buf), sin_)) {
		if (strncmp(buf, "__sched v ", 10) == 0) return atoi(buf + 10);
	}
	return dflt;
}

// vector clocks
typedef struct { uint32_t v[NT]; } VC;
static VC vc[NT], relf[NT], acqp[NT];
static void vjoin(VC *a, const VC *b) { for (int i = 0; i < NT; ++i) if (b->v[i] > a->v[i]) a->v[i] = b->v[i]; }
#define HS (1 << 16)
static struct loc { uint64_t k; VC v; struct loc *n; } *locs[HS];
static struct shadow { uint64_t k; bool w, freed, poisoned; int wt; uint32_t wc; VC r; struct shadow *n; } *shad[HS];
static unsigned hash(uint64_t k) { return (k * 0x9E3779B97F4A7C15u) >> 48; }
static VC *loc(uint64_t k) {
	unsigned h = hash(k);
	for (struct loc *l = locs[h]; l; l = l->n) if (l->k == k) return &l->v;
	struct loc *l = calloc(1, sizeof(*l)); l->k = k; l->n = locs[h]; locs[h] = l; return &l->v;
}
static struct shadow *shadow(uint64_t k) {
	unsigned h = hash(k);
	for (struct shadow *l = shad[h]; l; l = l->n) if (l->k == k) return l;
	struct shadow *l = calloc(1, sizeof(*l)); l->k = k; l->n = shad[h]; shad[h] = l; return l;
}
void __sym_acquire(uint64_t k) { if (nth > 1) vjoin(&vc[cur], loc(k)); }
void __sym_release(uint64_t k) { if (nth > 1) { vjoin(loc(k), &vc[cur]); vc[cur].v[cur]++; } }

static void go(int i) {
	int me = cur;
	th[me].err = errno;
	cur = i;
	if (i != me) swapcontext(&th[me].c, &th[i].c);
	errno = th[cur].err;
}
static void enter_irq(int i, bool preempt) { irq_parent = preempt ? 0 : -1; vjoin(&vc[i], &vc[0]); }
static void point(void) {
	struct co *me = &th[cur];
	if (me->sched) { me->sched = false; return; }
	int live = 0;
	for (int i = 0; i < nth; ++i) live += th[i].st == RUN;
	if (live <= 1 || me->irq) return;
	int i = next_sched(cur);
	if (i == cur || i >= nth || th[i].st != RUN) return;
	if (th[i].irq) enter_irq(i, true);
	th[i].sched = true;
	go(i);
	me->sched = false;
}
static void blocked(void) {
	int r[NT], n = 0;
	for (int i = 0; i < nth; ++i) {
		if (th[i].st != RUN) continue;
		if (th[cur].irq && th[cur].st == WAIT && (th[i].irq || i == 0)) continue;
		r[n++] = i;
	}
	if (!n) __sym_fail("deadlock: all threads blocked");
	int i = next_sched(r[0]);
	if (i >= nth || th[i].st != RUN) i = r[0];
	if (th[i].irq) enter_irq(i, false);
	th[i].sched = true;
	go(i);
}
static void start(void) {
	struct co *me = &th[cur];
	me->fn(me->arg);
	me->st = DONE;
	for (int i = 0; i < nth; ++i) if (th[i].st == WAIT && th[i].key == 0xD0DE0000ull + cur) { th[i].st = RUN; th[i].sched = false; }
	if (me->irq) {
		vjoin(&vc[0], &vc[cur]);
		if (irq_parent == 0) { irq_parent = -1; th[0].sched = true; go(0); }
	}
	blocked();
	abort();
}
uint64_t __sym_spawn(void (*fn)(void *), void *arg) {
	int i = nth++;
	if (i >= NT) __sym_fail("too many threads");
	struct co *c = &th[i];
	c->st = RUN; c->fn = fn; c->arg = arg;
	getcontext(&c->c);
	c->c.uc_stack.ss_sp = malloc(1 << 20);
	c->c.uc_stack.ss_size = 1 << 20;
	makecontext(&c->c, start, 0);
	if (!vc[0].v[0]) vc[0].v[0] = 1;
	vc[i].v[i] = 1;
	vjoin(&vc[i], &vc[cur]);
	vc[cur].v[cur]++;
	return i;
}
uint64_t __sym_irq(void (*fn)(void *), void *arg) { uint64_t i = __sym_spawn(fn, arg); th[i].irq = true; return i; }
uint64_t __sym_self(void) { return cur; }
int __sym_thread_done(uint64_t t) { return th[t].st == DONE; }
void __sym_yield(void) { if (nth > 1) point(); }
void __sym_notify(uint64_t k) { for (int i = 0; i < nth; ++i) if (th[i].st == WAIT && th[i].key == k) { th[i].st = RUN; th[i].sched = false; } }
void __sym_notify1(uint64_t k) {
	int f = -1;
	for (int i = 0; i < nth; ++i) if (f < 0 && th[i].st == WAIT && th[i].key == k) f = i;
	if (f < 0) return;
	f = next_sched(f);
	if (f < nth && th[f].st == WAIT) { th[f].st = RUN; th[f].sched = false; }
}
void __sym_wait_on(uint64_t k) { th[cur].st = WAIT; th[cur].key = k; th[cur].sched = false; blocked(); }
void __sym_join(uint64_t t) {
	while (th[t].st != DONE) { th[cur].st = WAIT; th[cur].key = 0xD0DE0000ull + t; th[cur].sched = false; blocked(); }
	vjoin(&vc[cur], &vc[t]);
}

static void access_(void *p, size_t n, bool wr) {
	if (nth < 2) return;
	VC *t = &vc[cur];
	for (size_t i = 0; i < n; ++i) {
		struct shadow *x = shadow((uint64_t)(uintptr_t)p + i);
		if (x->freed) __sym_fail("use after free");
		if (x->poisoned) __sym_fail("use of poisoned memory");
		bool bad = x->w && x->wc > t->v[x->wt];
		if (wr) for (int j = 0; j < NT; ++j) bad |= x->r.v[j] > t->v[j];
		if (bad) __sym_fail("data race");
		if (wr) { x->w = true; x->wt = cur; x->wc = t->v[cur]; memset(&x->r, 0, sizeof(x->r)); }
		else x->r.v[cur] = t->v[cur];
	}
}
void *__sym_malloc(size_t n, size_t align, int zero) {
	void *p = NULL;
	if (posix_memalign(&p, align < 16 ? 16 : align, n ? n : 1) != 0) return NULL;
	memset(p, zero ? 0 : 0xA5, n);
	return p;
}
#include <malloc.h>
size_t __sym_objsize(void *p) { return malloc_usable_size(p); }
void __sym_free(void *p) {
	if (!p) return;
	size_t n = malloc_usable_size(p);
	if (shadow((uint64_t)(uintptr_t)p)->freed) __sym_fail("double free");
	access_(p, n < 1024 ? n : 1024, true);
	for (size_t i = 0; i < n; ++i) shadow((uint64_t)(uintptr_t)p + i)->freed = true;
}
void __asan_poison_memory_region(void const volatile *p, size_t n) { for (size_t i = 0; i < n; ++i) shadow((uint64_t)(uintptr_t)p + i)->poisoned = true; }
void __asan_unpoison_memory_region(void const volatile *p, size_t n) { for (size_t i = 0; i < n; ++i) shadow((uint64_t)(uintptr_t)p + i)->poisoned = false; }
void __sanitizer_annotate_contiguous_container(const void *a, const void *b, const void *c, const void *d) {}
int __asan_address_is_poisoned(void const volatile *p) { return 0; }

void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n) \
	void __tsan_read##n(void *p) { access_(p, n, false); } \
	void __tsan_write##n(void *p) { access_(p, n, true); } \
	void __tsan_unaligned_read##n(void *p) { access_(p, n, false); } \
	void __tsan_unaligned_write##n(void *p) { access_(p, n, true); } \
	void __tsan_volatile_read##n(void *p) { access_(p, n, false); } \
	void __tsan_volatile_write##n(void *p) { access_(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access_(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access_(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_((void *)s, n, false); access_(d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_((void *)s, n, false); access_(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_(d, n, true); return memset(d, c, n); }

static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void atomic_(void *p, int mo, bool rd, bool wr) {
	if (nth < 2) return;
	if (shadow((uint64_t)(uintptr_t)p)->freed) __sym_fail("use after free");
	VC *t = &vc[cur], *l = loc((uint64_t)(uintptr_t)p);
	if (rd) vjoin(acq(mo) ? t : &acqp[cur], l);
	if (wr) {
		if (!rd) memset(l, 0, sizeof(*l));
		if (rel(mo)) { vjoin(l, t); t->v[cur]++; } else vjoin(l, &relf[cur]);
	}
}
void __tsan_atomic_thread_fence(int mo) {
	if (nth < 2) return;
	if (acq(mo)) vjoin(&vc[cur], &acqp[cur]);
	if (rel(mo)) { vjoin(&relf[cur], &vc[cur]); vc[cur].v[cur]++; }
}
void __tsan_atomic_signal_fence(int mo) {}
#define PT_() do { if (nth > 1) point(); } while (0)
#define AT(n, T) \
	T __tsan_atomic##n##_load(T *p, int mo) { PT_(); atomic_(p, mo, true, false); return *p; } \
	void __tsan_atomic##n##_store(T *p, T v, int mo) { PT_(); atomic_(p, mo, false, true); *p = v; } \
	T __tsan_atomic##n##_exchange(T *p, T v, int mo) { PT_(); atomic_(p, mo, true, true); T o = *p; *p = v; return o; } \
	T __tsan_atomic##n##_fetch_add(T *p, T v, int mo) { PT_(); atomic_(p, mo, true, true); T o = *p; *p = o + v; return o; } \
	T __tsan_atomic##n##_fetch_sub(T *p, T v, int mo) { PT_(); atomic_(p, mo, true, true); T o = *p; *p = o - v; return o; } \
	T __tsan_atomic##n##_fetch_and(T *p, T v, int mo) { PT_(); atomic_(p, mo, true, true); T o = *p; *p = o & v; return o; } \
	T __tsan_atomic##n##_fetch_or(T *p, T v, int mo) { PT_(); atomic_(p, mo, true, true); T o = *p; *p = o | v; return o; } \
	T __tsan_atomic##n##_fetch_xor(T *p, T v, int mo) { PT_(); atomic_(p, mo, true, true); T o = *p; *p = o ^ v; return o; } \
	T __tsan_atomic##n##_compare_exchange_val(T *p, T c, T v, int mo, int fmo) { \
		PT_(); T o = *p; bool ok = o == c; atomic_(p, ok ? mo : fmo, true, ok); if (ok) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
