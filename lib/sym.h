// Harness interface: the same harness source is compiled to LLVM bitcode for
// the symbolic executor and natively (with lib/replay.c) to replay
// counterexamples.
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

uint64_t sym_u64(const char *name);
uint32_t sym_u32(const char *name);
uint16_t sym_u16(const char *name);
uint8_t sym_u8(const char *name);
int sym_bool(const char *name);
void sym_mem(void *p, size_t n, const char *name);
uint64_t sym_range(const char *name, uint64_t lo, uint64_t hi);
int sym_choice(const char *name, uint64_t n);
void sym_assume(int cond);
void __sym_assert(int cond, const char *msg);
_Noreturn void __sym_fail(const char *msg);
void sym_cover(const char *label);
void sym_note(const char *str);
void sym_note_int(const char *str, uint64_t v);
void sym_print(const char *str, uint64_t v);
_Noreturn void sym_done(void);
uint64_t sym_concretize(uint64_t x);
int sym_is_symbolic(uint64_t x);
int sym_may(int cond);
uint64_t sym_ite(int cond, uint64_t a, uint64_t b);
long sym_param(const char *name, long dflt);
int sym_symbolic(void);
size_t sym_heap_live(void);

void *__sym_malloc(size_t size, size_t align, int zero);
void __sym_free(void *p);
size_t __sym_objsize(void *p);
uint64_t __sym_spawn(void (*fn)(void *), void *arg);
uint64_t __sym_self(void);
int __sym_thread_done(uint64_t tid);
void __sym_notify(uint64_t key);
void __sym_notify1(uint64_t key);
void __sym_acquire(uint64_t key);
void __sym_release(uint64_t key);
uint64_t __sym_irq(void (*fn)(void *), void *arg);
void __sym_wait_on(uint64_t key);
void __sym_join(uint64_t tid);
void __sym_yield(void);

// fork(): the child runs first; __sym_fork_end() resumes the parent, which sees
// its own memory except for the listed regions (terminated by a null pointer).
struct sym_region { void *p; size_t n; };
int __sym_fork(void);
_Noreturn void __sym_fork_end(uint64_t pid, struct sym_region *keep);

#define SYM_STR_(x) #x
#define SYM_STR(x) SYM_STR_(x)
#define SYM_ASSERT(cond, msg) __sym_assert(!!(cond), msg " [" #cond "]")

void harness(void);

// Model functions replace libc functions: every reference to NAME, NAME64 or
// __isoc23_NAME is redirected to mdl_NAME (in the bitcode and natively).
#define MDL(name) mdl_##name

#endif
