// pthreads and semaphores on top of the executor's threads.  Included by
// libc.c for the executor; compiled on its own for scheduled native replays.
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include "sym.h"
#ifdef SYM_NATIVE
#  define PT(n) mdl_##n
#else
#  define PT(n) n
#endif
#define K(p) ((uint64_t)(uintptr_t)(p))
struct mmutex { int locked; uint64_t owner; };
static void mm_acquire(struct mmutex *m) {
	while (m->locked) __sym_wait_on(K(m));
	m->locked = 1;
	m->owner = __sym_self();
	__sym_acquire(K(m));
}
static void mm_release(struct mmutex *m) {
	m->locked = 0;
	__sym_release(K(m));
	__sym_notify(K(m));
}
int PT(pthread_mutex_init)(pthread_mutex_t *m, const pthread_mutexattr_t *a) { ((struct mmutex *)m)->locked = 0; return 0; }
int PT(pthread_mutex_lock)(pthread_mutex_t *p) {
	__sym_yield();
	mm_acquire((void *)p);
	return 0;
}
int PT(pthread_mutex_trylock)(pthread_mutex_t *p) {
	__sym_yield();
	if (((struct mmutex *)p)->locked) return EBUSY;
	mm_acquire((void *)p);
	return 0;
}
int PT(pthread_mutex_unlock)(pthread_mutex_t *p) {
	struct mmutex *m = (void *)p;
	if (!m->locked || m->owner != __sym_self()) __sym_fail("unlock of a mutex that is not held");
	mm_release(m);
	__sym_yield();
	return 0;
}
int PT(pthread_mutex_destroy)(pthread_mutex_t *p) { if (((struct mmutex *)p)->locked) __sym_fail("destroying a locked mutex"); return 0; }
int PT(pthread_cond_init)(pthread_cond_t *c, const pthread_condattr_t *a) { return 0; }
int PT(pthread_cond_wait)(pthread_cond_t *c, pthread_mutex_t *p) {
	struct mmutex *m = (void *)p;
	if (!m->locked || m->owner != __sym_self()) __sym_fail("cond_wait without the mutex");
	__sym_yield();
	mm_release(m);
	__sym_wait_on(K(c));
	mm_acquire(m);
	return 0;
}
int PT(pthread_cond_signal)(pthread_cond_t *c) { __sym_yield(); __sym_notify1(K(c)); return 0; }
int PT(pthread_cond_broadcast)(pthread_cond_t *c) { __sym_yield(); __sym_notify(K(c)); return 0; }
int PT(pthread_cond_destroy)(pthread_cond_t *c) { return 0; }
int PT(pthread_once)(pthread_once_t *o, void (*fn)(void)) { if (!*o) { *o = 1; fn(); } return 0; }
struct mthread { void *(*fn)(void *); void *arg, *ret; uint64_t tid; };
static void mthread_main(void *p) { struct mthread *t = p; t->ret = t->fn(t->arg); }
int (*mdl_thread_fail)(void);
int PT(pthread_create)(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	if (mdl_thread_fail && mdl_thread_fail()) return EAGAIN;
	struct mthread *t = __sym_malloc(sizeof(*t), 16, 1);
	t->fn = fn;
	t->arg = arg;
	*th = (pthread_t)t;
	t->tid = __sym_spawn(mthread_main, t);
	return 0;
}
int PT(pthread_join)(pthread_t th, void **ret) {
	struct mthread *t = (void *)th;
	__sym_join(t->tid);
	if (ret) *ret = t->ret;
	__sym_free(t);
	return 0;
}
int PT(pthread_setname_np)(pthread_t t, const char *n) { return 0; }
pthread_t PT(pthread_self)(void) { return 1 + __sym_self(); }
int PT(pthread_attr_init)(pthread_attr_t *a) { return 0; }
int PT(pthread_attr_destroy)(pthread_attr_t *a) { return 0; }
int PT(sem_init)(sem_t *s, int sh, unsigned v) { *(unsigned *)s = v; return 0; }
int PT(sem_destroy)(sem_t *s) { return 0; }
int PT(sem_post)(sem_t *s) { __sym_yield(); ++*(unsigned *)s; __sym_release(K(s)); __sym_notify(K(s)); __sym_yield(); return 0; }
int PT(sem_wait)(sem_t *s) { __sym_yield(); while (!*(unsigned *)s) __sym_wait_on(K(s)); --*(unsigned *)s; __sym_acquire(K(s)); return 0; }
int PT(sem_trywait)(sem_t *s) { if (!*(unsigned *)s) { errno = EAGAIN; return -1; } --*(unsigned *)s; __sym_acquire(K(s)); return 0; }
