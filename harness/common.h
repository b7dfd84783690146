#ifndef COMMON_H
#define COMMON_H
#include "mos.h"
#include <string.h>
#include <stdlib.h>

static inline void world(void) { mfs_init(); mio_init(); menv_init(); }

#define RUN(...) ({ const char *av_[] = {"bfs", __VA_ARGS__, NULL}; int n_ = 0; while (av_[n_]) ++n_; \
	int r_ = bfs_run(n_, av_); mio_str(&mio_out); mio_str(&mio_err); r_; })

static inline bool out_is(const char *s) { size_t n = strlen(s); return mio_out.len == n && memcmp(mio_out.buf, s, n) == 0; }
static inline void notes(void) { sym_note("stdout"); sym_note(mio_out.buf); sym_note("stderr"); sym_note(mio_err.buf); }
static inline void no_leaks(void) {
	SYM_ASSERT(mfs_open_fds() == 0, "every descriptor bfs opened is closed");
	SYM_ASSERT(mfs_badclose == 0, "no descriptor is closed twice");
	SYM_ASSERT(mfs_badfd == 0, "no closed descriptor is used");
}

// A numeric argument: optional sign, then nd symbolic decimal digits, then a suffix.
struct numarg { char str[32]; int sign; uint64_t val; };
static inline const char *numarg(struct numarg *a, int nd, const char *suffix, bool sign) {
	char *p = a->str;
	a->sign = sign ? sym_choice("sign", 3) : 0;
	if (a->sign == 1) *p++ = '+';
	if (a->sign == 2) *p++ = '-';
	a->val = 0;
	for (int i = 0; i < nd; ++i) {
		uint8_t d = sym_u8("digit");
		sym_assume(d <= 9);
		*p++ = '0' + d;
		a->val = a->val * 10 + d;
	}
	while (*suffix) *p++ = *suffix++;
	*p = 0;
	return a->str;
}
static inline bool numcmp(const struct numarg *a, __int128 n) {
	switch (a->sign) {
	case 1: return n > (__int128)a->val;
	case 2: return n < (__int128)a->val;
	default: return n == (__int128)a->val;
	}
}
#endif
