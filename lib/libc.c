// Pure libc model, executor only.  Semantics follow POSIX/glibc for the
// "C"/"C.UTF-8" locale; every function here is ordinary C so that symbolic
// data flows through it.
#define _GNU_SOURCE 1
#undef _FILE_OFFSET_BITS
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <wchar.h>
#include <wctype.h>
#include <locale.h>
#include <langinfo.h>
#include <time.h>
#include <ctype.h>
#include <fnmatch.h>
#include <regex.h>
#include <sys/sysmacros.h>
#include "sym.h"

#undef strcmp
#undef strlen
#undef errno

// ---------------------------------------------------------------- errno
static int main_errno[16];
int *__errno_location(void) { return &main_errno[__sym_self() & 15]; }
#define errno (*__errno_location())

// ---------------------------------------------------------------- memory
// Allocation failures: a harness may define mdl_alloc_fail() to inject them.
__attribute__((weak)) int mdl_alloc_fail(size_t n) { (void)n; return 0; }
// Sizes above this always fail (as they would on any real machine)
#define HUGE_ALLOC ((size_t)1 << 26)

static void *alloc_(size_t n, size_t align, int zero) {
	if (n > HUGE_ALLOC || mdl_alloc_fail(n)) { errno = ENOMEM; return NULL; }
	return __sym_malloc(n, align, zero);
}
void *malloc(size_t n) { return alloc_(n, 16, 0); }
void *calloc(size_t n, size_t m) {
	size_t t;
	if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return NULL; }
	return alloc_(t, 16, 1);
}
void free(void *p) { if (p) __sym_free(p); }
void *realloc(void *p, size_t n) {
	if (!p) return malloc(n);
	size_t old = __sym_objsize(p);
	if (n == 0) { __sym_free(p); return NULL; }
	void *q = malloc(n);
	if (!q) return NULL;
	__builtin_memcpy(q, p, old < n ? old : n);
	__sym_free(p);
	return q;
}
int posix_memalign(void **pp, size_t align, size_t n) {
	void *p = alloc_(n, align, 0);
	if (!p) return ENOMEM;
	*pp = p;
	return 0;
}
void *aligned_alloc(size_t align, size_t n) { return alloc_(n, align, 0); }
size_t malloc_usable_size(void *p) { return p ? __sym_objsize(p) : 0; }

// ---------------------------------------------------------------- string.h
void *memcpy(void *d, const void *s, size_t n) { return __builtin_memcpy(d, s, n); }
void *memmove(void *d, const void *s, size_t n) { return __builtin_memmove(d, s, n); }
void *memset(void *d, int c, size_t n) { return __builtin_memset(d, c, n); }
int memcmp(const void *a, const void *b, size_t n) {
	const unsigned char *x = a, *y = b;
	int r = 0;
	for (size_t i = n; i-- > 0;) {
		int d = (int)x[i] - (int)y[i];
		r = (int)sym_ite(d != 0, (uint32_t)d, (uint32_t)r);
	}
	return r;
}
void *memchr(const void *s, int c, size_t n) {
	const unsigned char *p = s;
	for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void *)(p + i);
	return NULL;
}
void *memrchr(const void *s, int c, size_t n) {
	const unsigned char *p = s;
	for (size_t i = n; i-- > 0;) if (p[i] == (unsigned char)c) return (void *)(p + i);
	return NULL;
}
void *memmem(const void *h, size_t hn, const void *n, size_t nn) {
	const char *p = h;
	for (size_t i = 0; i + nn <= hn; ++i) if (memcmp(p + i, n, nn) == 0) return (void *)(p + i);
	return NULL;
}
void *mempcpy(void *d, const void *s, size_t n) { __builtin_memcpy(d, s, n); return (char *)d + n; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) {
	for (;; ++a, ++b) {
		unsigned char x = *a, y = *b;
		if (x != y) return (int)x - (int)y;
		if (!x) return 0;
	}
}
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
int strncmp(const char *a, const char *b, size_t n) {
	for (; n; ++a, ++b, --n) {
		unsigned char x = *a, y = *b;
		if (x != y) return (int)x - (int)y;
		if (!x) return 0;
	}
	return 0;
}
int (tolower)(int c) { return (unsigned)c - 'A' < 26 ? c + 32 : c; }
int (toupper)(int c) { return (unsigned)c - 'a' < 26 ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) {
	for (;; ++a, ++b) {
		int x = (tolower)((unsigned char)*a), y = (tolower)((unsigned char)*b);
		if (x != y) return x - y;
		if (!x) return 0;
	}
}
int strncasecmp(const char *a, const char *b, size_t n) {
	for (; n; ++a, ++b, --n) {
		int x = (tolower)((unsigned char)*a), y = (tolower)((unsigned char)*b);
		if (x != y) return x - y;
		if (!x) return 0;
	}
	return 0;
}
char *strchr(const char *s, int c) {
	for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; }
}
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) ++s; return (char *)s; }
char *strrchr(const char *s, int c) {
	const char *r = NULL;
	for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : NULL; }
char *strstr(const char *h, const char *n) {
	size_t l = strlen(n);
	for (;; ++h) { if (strncmp(h, n, l) == 0) return (char *)h; if (!*h) return NULL; }
}
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) ++d, ++s; return d; }
char *stpncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; char *r = d + i; for (; i < n; ++i) d[i] = 0; return r; }
char *strncpy(char *d, const char *s, size_t n) { stpncpy(d, s, n); return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); if (r) __builtin_memcpy(r, s, n); return r; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); if (r) { __builtin_memcpy(r, s, n); r[n] = 0; } return r; }
char *strtok_r(char *s, const char *d, char **save) {
	if (!s) s = *save;
	s += strspn(s, d);
	if (!*s) { *save = s; return NULL; }
	char *e = s + strcspn(s, d);
	if (*e) *e++ = 0;
	*save = e;
	return s;
}
char *strerror(int e) {
	if (sym_is_symbolic(e)) return "errno";
	switch (e) {
	case 2: return "No such file or directory";
	case 5: return "Input/output error";
	case 12: return "Cannot allocate memory";
	case 13: return "Permission denied";
	case 20: return "Not a directory";
	case 22: return "Invalid argument";
	case 28: return "No space left on device";
	case 34: return "Numerical result out of range";
	case 36: return "File name too long";
	case 40: return "Too many levels of symbolic links";
	}
	return "errno";
}
char *strerror_l(int e, locale_t l) { (void)l; return strerror(e); }
char *(strerror_r)(int e, char *b, size_t n) { (void)b; (void)n; return strerror(e); }
char *strsignal(int s) { (void)s; return "signal"; }

// ---------------------------------------------------------------- ctype.h
#define UP 0x100
#define LO 0x200
#define AL 0x400
#define DI 0x800
#define XD 0x1000
#define SP 0x2000
#define PR 0x4000
#define GR 0x8000
#define BL 0x1
#define CN 0x2
#define PU 0x4
#define AN 0x8
#define R2(x) x, x
#define R4(x) x, x, x, x
#define CC CN
#define PT (PR | GR | PU)
#define DG (DI | XD | PR | GR | AN)
#define UX (UP | AL | XD | PR | GR | AN)
#define UU (UP | AL | PR | GR | AN)
#define LX (LO | AL | XD | PR | GR | AN)
#define LL (LO | AL | PR | GR | AN)
static const unsigned short ctab[384] = {
	[128] = CC, CC, CC, CC, CC, CC, CC, CC, CC, CC | SP | BL, CC | SP, CC | SP, CC | SP, CC | SP, CC, CC,
	CC, CC, CC, CC, CC, CC, CC, CC, CC, CC, CC, CC, CC, CC, CC, CC,
	SP | PR | BL, PT, PT, PT, PT, PT, PT, PT, PT, PT, PT, PT, PT, PT, PT, PT,
	DG, DG, DG, DG, DG, DG, DG, DG, DG, DG, PT, PT, PT, PT, PT, PT,
	PT, UX, UX, UX, UX, UX, UX, UU, UU, UU, UU, UU, UU, UU, UU, UU,
	UU, UU, UU, UU, UU, UU, UU, UU, UU, UU, UU, PT, PT, PT, PT, PT,
	PT, LX, LX, LX, LX, LX, LX, LL, LL, LL, LL, LL, LL, LL, LL, LL,
	LL, LL, LL, LL, LL, LL, LL, LL, LL, LL, LL, PT, PT, PT, PT, CC,
};
static const unsigned short *ctabp = ctab + 128;
const unsigned short **__ctype_b_loc(void) { return &ctabp; }
#define CT(c) (ctab[128 + (unsigned char)(c)])
int (isspace)(int c) { return CT(c) & SP; }
int (isdigit)(int c) { return CT(c) & DI; }
int (isalpha)(int c) { return CT(c) & AL; }
int (isalnum)(int c) { return CT(c) & (AL | DI); }
int (isprint)(int c) { return CT(c) & PR; }
int (isupper)(int c) { return CT(c) & UP; }
int (islower)(int c) { return CT(c) & LO; }
int (ispunct)(int c) { return CT(c) & PU; }
int (isxdigit)(int c) { return CT(c) & XD; }
int (iscntrl)(int c) { return CT(c) & CN; }

// ---------------------------------------------------------------- wide chars
__attribute__((weak)) int mdl_utf8 = 1;
size_t mbrtowc(wchar_t *pwc, const char *s, size_t n, mbstate_t *st) {
	(void)st;
	wchar_t dummy;
	if (!pwc) pwc = &dummy;
	if (!s) return 0;
	if (n == 0) return (size_t)-2;
	const unsigned char *p = (const unsigned char *)s;
	unsigned c = p[0];
	if (c < 0x80) { *pwc = c; return c ? 1 : 0; }
	if (!mdl_utf8) { errno = EILSEQ; return (size_t)-1; }
	unsigned len, min, v;
	if (c < 0xC2) goto ill;
	else if (c < 0xE0) { len = 2; min = 0x80; v = c & 0x1F; }
	else if (c < 0xF0) { len = 3; min = 0x800; v = c & 0x0F; }
	else if (c < 0xF5) { len = 4; min = 0x10000; v = c & 0x07; }
	else goto ill;
	for (unsigned i = 1; i < len; ++i) {
		if (i >= n) return (size_t)-2;
		unsigned d = p[i];
		if ((d & 0xC0) != 0x80) goto ill;
		v = v << 6 | (d & 0x3F);
	}
	if (v < min || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) goto ill;
	*pwc = v;
	return len;
ill:
	errno = EILSEQ;
	return (size_t)-1;
}
int mbsinit(const mbstate_t *st) { (void)st; return 1; }
int iswprint(wint_t c) { return c < 0x80 ? (c >= 0x20 && c < 0x7f) : c >= 0xa0; }
int iswspace(wint_t c) { return c == ' ' || (c >= 9 && c <= 13); }
int iswcntrl(wint_t c) { return c < 0x20 || (c >= 0x7f && c < 0xa0); }
int wcwidth(wchar_t c) { return c == 0 ? 0 : iswprint(c) ? 1 : -1; }
char *setlocale(int c, const char *l) { (void)c; (void)l; return "C.UTF-8"; }
char *nl_langinfo(nl_item i) { if (i == CODESET) return mdl_utf8 ? "UTF-8" : "ANSI_X3.4-1968"; if (i == YESEXPR) return "^[yY]"; if (i == NOEXPR) return "^[nN]"; return ""; }
locale_t duplocale(locale_t l) { return l; }
void freelocale(locale_t l) { (void)l; }
locale_t uselocale(locale_t l) { (void)l; return LC_GLOBAL_LOCALE; }
locale_t newlocale(int m, const char *n, locale_t l) { (void)m; (void)n; (void)l; return (locale_t)&main_errno; }

// ---------------------------------------------------------------- stdlib.h
static int digit(char c) {
	unsigned d = (unsigned char)c - '0';
	if (d < 10) return d;
	d = ((unsigned char)c | 32) - 'a';
	if (d < 26) return d + 10;
	return 99;
}
static unsigned long long strtoull_(const char *s, char **end, int base, int sgn, int *neg, int *ovf) {
	const char *p = s;
	int any = 0;
	unsigned long long v = 0;
	*neg = *ovf = 0;
	while (isspace((unsigned char)*p)) ++p;
	if (*p == '-') { *neg = 1; ++p; } else if (*p == '+') ++p;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2]) < 16) { p += 2; base = 16; }
	else if ((base == 0 || base == 2) && p[0] == '0' && (p[1] == 'b' || p[1] == 'B') && digit(p[2]) < 2) { p += 2; base = 2; }
	else if (base == 0) base = p[0] == '0' ? 8 : 10;
	for (;; ++p) {
		int d = digit(*p);
		if (d >= base) break;
		any = 1;
		unsigned long long t;
		if (__builtin_mul_overflow(v, (unsigned long long)base, &t) || __builtin_add_overflow(t, (unsigned long long)d, &t)) *ovf = 1;
		else v = t;
	}
	if (end) *end = (char *)(any ? p : s);
	(void)sgn;
	return v;
}
long strtol(const char *s, char **end, int base) {
	int neg, ovf;
	unsigned long long v = strtoull_(s, end, base, 1, &neg, &ovf);
	unsigned long long lim = neg ? (unsigned long long)LLONG_MAX + 1 : LLONG_MAX;
	if (ovf || v > lim) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
	return neg ? (long)(0 - v) : (long)v;
}
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long strtoul(const char *s, char **end, int base) {
	int neg, ovf;
	unsigned long long v = strtoull_(s, end, base, 0, &neg, &ovf);
	if (ovf) { errno = ERANGE; return ULONG_MAX; }
	return neg ? 0 - v : v;
}
unsigned long long strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
int atoi(const char *s) { return strtol(s, NULL, 10); }
// Concrete decimal floating point (no exponents, no hex, no infinities)
double strtod(const char *s, char **end) {
	const char *p = s;
	while (isspace((unsigned char)*p)) ++p;
	int neg = 0, any = 0;
	if (*p == '-') { neg = 1; ++p; } else if (*p == '+') ++p;
	double v = 0, sc = 1;
	for (; (unsigned char)*p - '0' < 10u; ++p) { v = v * 10 + (*p - '0'); any = 1; }
	if (*p == '.') { ++p; for (; (unsigned char)*p - '0' < 10u; ++p) { v = v * 10 + (*p - '0'); sc *= 10; any = 1; } }
	if (end) *end = (char *)(any ? p : s);
	v /= sc;
	return neg ? -v : v;
}
float strtof(const char *s, char **end) { return strtod(s, end); }

__attribute__((weak)) const char *mdl_env(const char *name) { (void)name; return NULL; }
char *getenv(const char *name) { return (char *)mdl_env(name); }
char *secure_getenv(const char *name) { return (char *)mdl_env(name); }
static char *no_environ[1];
__attribute__((weak)) char **environ = no_environ;

void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
	char *b = base;
	char tmp[256];
	for (size_t i = 1; i < n; ++i)
		for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; --j) {
			__builtin_memcpy(tmp, b + j * sz, sz);
			__builtin_memcpy(b + j * sz, b + (j - 1) * sz, sz);
			__builtin_memcpy(b + (j - 1) * sz, tmp, sz);
		}
}
void *bsearch(const void *k, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
	const char *b = base;
	size_t lo = 0, hi = n;
	while (lo < hi) {
		size_t m = lo + (hi - lo) / 2;
		int c = cmp(k, b + m * sz);
		if (c == 0) return (void *)(b + m * sz);
		if (c < 0) hi = m; else lo = m + 1;
	}
	return NULL;
}
unsigned int gnu_dev_major(dev_t d) { return ((d >> 8) & 0xfff) | ((unsigned)(d >> 32) & ~0xfffu); }
unsigned int gnu_dev_minor(dev_t d) { return (d & 0xff) | ((unsigned)(d >> 12) & ~0xffu); }
dev_t gnu_dev_makedev(unsigned ma, unsigned mi) { return (mi & 0xff) | ((ma & 0xfffull) << 8) | ((dev_t)(mi & ~0xffu) << 12) | ((dev_t)(ma & ~0xfffu) << 32); }

// ---------------------------------------------------------------- printf
struct obuf { char *p; size_t n, cap; };
static void oput(struct obuf *o, char c) { if (o->n + 1 < o->cap) o->p[o->n] = c; o->n++; }
static void opad(struct obuf *o, char c, long n) { while (n-- > 0) oput(o, c); }

uint8_t __sym_fresh8(void);
static unsigned fresh(unsigned lim) {
	uint8_t d = __sym_fresh8();
	sym_assume(d <= lim);
	return d;
}
// the decimal digits of a symbolic number, least significant first: the digits
// are variables defined by their weighted sum
static int symdec(char *tmp, unsigned long v) {
	int nd = 1;
	for (unsigned long p = 10; nd < 20 && v >= p; p *= 10) ++nd;
	unsigned long sum = 0;
	for (int i = nd - 1; i >= 0; --i) {
		tmp[i] = '0' + fresh(i == 19 ? 1 : 9);
		sum = sum * 10 + (tmp[i] - '0');
	}
	if (nd == 20) sym_assume(sum >= 10000000000000000000ul);
	sym_assume(sum == v);
	return nd;
}

int vsnprintf(char *buf, size_t cap, const char *fmt, va_list ap) {
	struct obuf o = {buf, 0, cap};
	for (; *fmt; ++fmt) {
		if (*fmt != '%') { oput(&o, *fmt); continue; }
		++fmt;
		int left = 0, zero = 0, plus = 0, space = 0, alt = 0;
		for (;; ++fmt) {
			if (*fmt == '-') left = 1; else if (*fmt == '0') zero = 1; else if (*fmt == '+') plus = 1;
			else if (*fmt == ' ') space = 1; else if (*fmt == '#') alt = 1; else if (*fmt == '\'') {} else break;
		}
		long width = 0, prec = -1;
		if (*fmt == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } ++fmt; }
		else while (*fmt >= '0' && *fmt <= '9') width = width * 10 + (*fmt++ - '0');
		if (*fmt == '.') {
			++fmt; prec = 0;
			if (*fmt == '*') { prec = va_arg(ap, int); ++fmt; }
			else while (*fmt >= '0' && *fmt <= '9') prec = prec * 10 + (*fmt++ - '0');
		}
		int lng = 0, hh = 0;
		for (;; ++fmt) {
			if (*fmt == 'l' || *fmt == 'j' || *fmt == 'z' || *fmt == 't' || *fmt == 'q') lng = 1;
			else if (*fmt == 'h') hh++; else break;
		}
		char tmp[32];
		int tn = 0;
		switch (*fmt) {
		case '%': oput(&o, '%'); break;
		case 'c': { char c = va_arg(ap, int); if (!left) opad(&o, ' ', width - 1); oput(&o, c); if (left) opad(&o, ' ', width - 1); break; }
		case 's': {
			const char *s = va_arg(ap, const char *);
			if (!s) s = "(null)";
			long n = 0;
			while ((prec < 0 || n < prec) && s[n]) ++n;
			if (!left) opad(&o, ' ', width - n);
			for (long i = 0; i < n; ++i) oput(&o, s[i]);
			if (left) opad(&o, ' ', width - n);
			break;
		}
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
			unsigned long v;
			int neg = 0, base = 10;
			if (*fmt == 'p') { v = (unsigned long)va_arg(ap, void *); base = 16; alt = 1; }
			else if (*fmt == 'd' || *fmt == 'i') {
				long sv = lng ? va_arg(ap, long) : va_arg(ap, int);
				if (hh == 1) sv = (short)sv; else if (hh > 1) sv = (signed char)sv;
				neg = sv < 0;
				v = neg ? 0 - (unsigned long)sv : (unsigned long)sv;
			} else {
				v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
				if (hh == 1) v = (unsigned short)v; else if (hh > 1) v = (unsigned char)v;
				base = *fmt == 'u' ? 10 : *fmt == 'o' ? 8 : 16;
			}
			int nz = v != 0;
			if (base == 10 && v && sym_is_symbolic(v)) { tn = symdec(tmp, v); v = 0; }
			while (v) { unsigned d; if (base == 10) { d = v % 10; v /= 10; } else if (base == 8) { d = v & 7; v >>= 3; } else { d = v & 15; v >>= 4; }
				tmp[tn++] = d < 10 ? '0' + d : (*fmt == 'X' ? 'A' : 'a') + d - 10; }
			if (tn == 0 && prec != 0) tmp[tn++] = '0';
			long dig = tn;
			if (prec > dig) dig = prec;
			if (alt && base == 8 && (dig == tn) && (tn == 0 || tmp[tn - 1] != '0')) dig++;
			const char *pre = "";
			if (neg) pre = "-"; else if (plus && (*fmt == 'd' || *fmt == 'i')) pre = "+"; else if (space && (*fmt == 'd' || *fmt == 'i')) pre = " ";
			else if (alt && base == 16 && nz) pre = *fmt == 'X' ? "0X" : "0x";
			long pl = strlen(pre);
			if (prec >= 0) zero = 0;
			if (!left && !zero) opad(&o, ' ', width - dig - pl);
			for (long i = 0; i < pl; ++i) oput(&o, pre[i]);
			if (!left && zero) opad(&o, '0', width - dig - pl);
			opad(&o, '0', dig - tn);
			while (tn) oput(&o, tmp[--tn]);
			if (left) opad(&o, ' ', width - dig - pl);
			break;
		}
		case 'g': case 'f': case 'e': {
			double d = va_arg(ap, double);
			if (d < 0 || d >= 1000000 || d != (double)(long)d) __sym_fail("libc model: %g of this value");
			unsigned long v = (unsigned long)d;
			do tmp[tn++] = '0' + v % 10; while (v /= 10);
			if (prec == 0) prec = 1;
			if (prec > 0 && prec < tn) __sym_fail("libc model: %g precision");
			if (!left && !zero) opad(&o, ' ', width - tn);
			if (!left && zero) opad(&o, '0', width - tn);
			long gl = tn;
			while (tn) oput(&o, tmp[--tn]);
			if (left) opad(&o, ' ', width - gl);
			break;
		}
		default: __sym_fail("libc model: unsupported printf conversion");
		}
	}
	if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
	return o.n;
}
int snprintf(char *buf, size_t cap, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vsnprintf(buf, cap, fmt, ap); va_end(ap); return r; }
int sprintf(char *buf, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vsnprintf(buf, (size_t)1 << 30, fmt, ap); va_end(ap); return r; }
int vasprintf(char **out, const char *fmt, va_list ap) {
	va_list cp; va_copy(cp, ap);
	int n = vsnprintf(NULL, 0, fmt, cp);
	va_end(cp);
	*out = malloc(n + 1);
	if (!*out) return -1;
	vsnprintf(*out, n + 1, fmt, ap);
	return n;
}
int asprintf(char **out, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vasprintf(out, fmt, ap); va_end(ap); return r; }

// ---------------------------------------------------------------- time.h (TZ=UTC)
void tzset(void) {}
static long days_from_civil(long y, unsigned m, unsigned d) {
	y -= m <= 2;
	long era = (y >= 0 ? y : y - 399) / 400;
	unsigned yoe = (unsigned)(y - era * 400);
	unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
	unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + (long)doe - 719468;
}
struct tm *gmtime_r(const time_t *tp, struct tm *tm) {
	time_t t = *tp;
	long days = t / 86400;
	if (sym_is_symbolic(t)) days = sym_concretize(days);
	long rem = t - days * 86400;
	if (rem < 0) { rem += 86400; days--; }
	long z = days + 719468;
	long era = (z >= 0 ? z : z - 146096) / 146097;
	unsigned doe = (unsigned)(z - era * 146097);
	unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
	long y = (long)yoe + era * 400;
	unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
	unsigned mp = (5 * doy + 2) / 153;
	unsigned d = doy - (153 * mp + 2) / 5 + 1;
	unsigned m = mp < 10 ? mp + 3 : mp - 9;
	y += m <= 2;
	if (y - 1900 > INT_MAX || y - 1900 < INT_MIN) { errno = EOVERFLOW; return NULL; }
	__builtin_memset(tm, 0, sizeof(*tm));
	tm->tm_year = y - 1900; tm->tm_mon = m - 1; tm->tm_mday = d;
	if (sym_is_symbolic(rem)) {
		tm->tm_hour = fresh(23); tm->tm_min = fresh(59); tm->tm_sec = fresh(59);
		sym_assume(tm->tm_hour * 3600 + tm->tm_min * 60 + tm->tm_sec == rem);
	} else {
		tm->tm_hour = rem / 3600; tm->tm_min = rem / 60 % 60; tm->tm_sec = rem % 60;
	}
	long w = (days + 4) % 7; tm->tm_wday = w < 0 ? w + 7 : w;
	tm->tm_yday = days - days_from_civil(y, 1, 1);
	tm->tm_zone = "UTC";
	return tm;
}
struct tm *localtime_r(const time_t *tp, struct tm *tm) { return gmtime_r(tp, tm); }
static time_t tm_seconds(const struct tm *tm) {
	long y = (long)tm->tm_year + 1900, mo = tm->tm_mon;
	if (sym_is_symbolic(mo)) mo = sym_concretize(mo);
	y += mo / 12;
	mo %= 12;
	if (mo < 0) { mo += 12; y--; }
	long t = days_from_civil(y, mo + 1, 1) + tm->tm_mday - 1;
	return t * 86400 + (long)tm->tm_hour * 3600 + (long)tm->tm_min * 60 + tm->tm_sec;
}
time_t timegm(struct tm *tm) {
	time_t t = tm_seconds(tm);
	// a symbolic time keeps the fields it was made from
	if (sym_is_symbolic(t)) { if (t != -1) return t; t = -1; }
	gmtime_r(&t, tm);
	return t;
}
time_t mktime(struct tm *tm) { return timegm(tm); }

static const char *const wdays[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const char *const mons[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static int isoweek(const struct tm *tm, int *year) {
	int wd = (tm->tm_wday + 6) % 7, y = tm->tm_year + 1900;
	int w = (tm->tm_yday - wd + 10) / 7;
	if (w < 1) {
		--y;
		int leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
		w = (tm->tm_yday + 365 + leap - wd + 10) / 7;
	} else if (w == 53) {
		int leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
		if (tm->tm_yday - wd + 3 >= 365 + leap) { w = 1; ++y; }
	}
	*year = y;
	return w;
}
size_t strftime(char *buf, size_t cap, const char *fmt, const struct tm *tm) {
	size_t n = 0;
	for (; *fmt; ++fmt) {
		char t[128];
		if (*fmt != '%') { t[0] = *fmt; t[1] = 0; }
		else {
			int Y = tm->tm_year + 1900, iy, w;
			int h12 = tm->tm_hour % 12 ? tm->tm_hour % 12 : 12;
			switch (*++fmt) {
			case '%': snprintf(t, sizeof t, "%%"); break;
			case 'a': snprintf(t, sizeof t, "%.3s", wdays[tm->tm_wday]); break;
			case 'A': snprintf(t, sizeof t, "%s", wdays[tm->tm_wday]); break;
			case 'h':
			case 'b': snprintf(t, sizeof t, "%.3s", mons[tm->tm_mon]); break;
			case 'B': snprintf(t, sizeof t, "%s", mons[tm->tm_mon]); break;
			case 'c': strftime(t, sizeof t, "%a %b %e %H:%M:%S %Y", tm); break;
			case 'C': snprintf(t, sizeof t, "%02d", Y / 100); break;
			case 'd': snprintf(t, sizeof t, "%02d", tm->tm_mday); break;
			case 'x':
			case 'D': strftime(t, sizeof t, "%m/%d/%y", tm); break;
			case 'e': snprintf(t, sizeof t, "%2d", tm->tm_mday); break;
			case 'F': strftime(t, sizeof t, "%Y-%m-%d", tm); break;
			case 'g': isoweek(tm, &iy); snprintf(t, sizeof t, "%02d", iy % 100); break;
			case 'G': isoweek(tm, &iy); snprintf(t, sizeof t, "%d", iy); break;
			case 'H': snprintf(t, sizeof t, "%02d", tm->tm_hour); break;
			case 'I': snprintf(t, sizeof t, "%02d", h12); break;
			case 'j': snprintf(t, sizeof t, "%03d", tm->tm_yday + 1); break;
			case 'm': snprintf(t, sizeof t, "%02d", tm->tm_mon + 1); break;
			case 'M': snprintf(t, sizeof t, "%02d", tm->tm_min); break;
			case 'n': snprintf(t, sizeof t, "\n"); break;
			case 'p': snprintf(t, sizeof t, "%s", tm->tm_hour < 12 ? "AM" : "PM"); break;
			case 'r': strftime(t, sizeof t, "%I:%M:%S %p", tm); break;
			case 'R': strftime(t, sizeof t, "%H:%M", tm); break;
			case 'S': snprintf(t, sizeof t, "%02d", tm->tm_sec); break;
			case 't': snprintf(t, sizeof t, "\t"); break;
			case 'X':
			case 'T': strftime(t, sizeof t, "%H:%M:%S", tm); break;
			case 'u': snprintf(t, sizeof t, "%d", tm->tm_wday ? tm->tm_wday : 7); break;
			case 'U': snprintf(t, sizeof t, "%02d", (tm->tm_yday + 7 - tm->tm_wday) / 7); break;
			case 'V': w = isoweek(tm, &iy); snprintf(t, sizeof t, "%02d", w); break;
			case 'w': snprintf(t, sizeof t, "%d", tm->tm_wday); break;
			case 'W': snprintf(t, sizeof t, "%02d", (tm->tm_yday + 7 - (tm->tm_wday + 6) % 7) / 7); break;
			case 'y': snprintf(t, sizeof t, "%02d", Y % 100); break;
			case 'Y': snprintf(t, sizeof t, "%d", Y); break;
			case 'z': snprintf(t, sizeof t, "+0000"); break;
			case 'Z': snprintf(t, sizeof t, "UTC"); break;
			default: __sym_fail("libc model: unsupported strftime conversion");
			}
		}
		for (char *p = t; *p; ++p) { if (n + 1 >= cap) return 0; buf[n++] = *p; }
	}
	if (cap) buf[n] = 0;
	return n;
}

// ---------------------------------------------------------------- fnmatch
static int fold(int c, int f) { return (f & FNM_CASEFOLD) ? (tolower)(c) : c; }
static int bracket(const char **pp, unsigned char c, int f) {
	const char *p = *pp + 1;
	int neg = 0, ok = 0, first = 1;
	if (*p == '!' || *p == '^') { neg = 1; ++p; }
	for (;; first = 0) {
		unsigned char a = *p;
		if (!a) return -1;
		if (a == ']' && !first) break;
		if (a == '\\' && !(f & FNM_NOESCAPE)) { a = *++p; if (!a) return -1; }
		++p;
		unsigned char b = a;
		if (*p == '-' && p[1] && p[1] != ']') {
			b = p[1]; p += 2;
			if (b == '\\' && !(f & FNM_NOESCAPE)) { b = *p++; if (!b) return -1; }
		}
		if ((c >= a && c <= b) || (fold(c, f) >= fold(a, f) && fold(c, f) <= fold(b, f))) ok = 1;
	}
	*pp = p + 1;
	return ok != neg;
}
int fnmatch(const char *p, const char *s, int f) {
	const char *start = s;
	for (;;) {
		unsigned char c = *p;
		if (c == 0) return *s ? FNM_NOMATCH : 0;
		if (c == '*') {
			while (*p == '*') ++p;
			if (!*p) return 0;
			for (;; ++s) {
				if (fnmatch(p, s, f) == 0) return 0;
				if (!*s) return FNM_NOMATCH;
			}
		}
		unsigned char x = *s;
		if (!x) return FNM_NOMATCH;
		if (c == '?') { ++p; ++s; continue; }
		if (c == '[') {
			const char *q = p;
			int r = bracket(&q, x, f);
			if (r >= 0) { if (!r) return FNM_NOMATCH; p = q; ++s; continue; }
		} else if (c == '\\' && !(f & FNM_NOESCAPE)) {
			c = *++p;
			if (!c) return FNM_NOMATCH;
		}
		if (fold(c, f) != fold(x, f)) return FNM_NOMATCH;
		++p; ++s;
	}
	(void)start;
}

// ---------------------------------------------------------------- misc
char *program_invocation_short_name = "bfs";
char *program_invocation_name = "bfs";
int __cpu_model[4];
int __cpu_indicator_init(void) { return 0; }

// ASan container annotations (the executor tracks poisoned bytes itself)
void __asan_poison_memory_region(void const volatile *p, size_t n);
void __asan_unpoison_memory_region(void const volatile *p, size_t n);
void __sanitizer_annotate_contiguous_container(const void *beg, const void *end, const void *old, const void *new) {
	(void)old;
	__asan_unpoison_memory_region(beg, (const char *)new - (const char *)beg);
	__asan_poison_memory_region(new, (const char *)end - (const char *)new);
}

#include "mthread.c"
int sched_yield(void) { __sym_yield(); return 0; }

// ---------------------------------------------------------------- regex
// A subset of POSIX regular expressions (literals, ., brackets, *, +, ?, ^, $
// and top-level alternation), leftmost-longest.
struct mrx { int ext, icase; char pat[]; };
int regcomp(regex_t *r, const char *p, int f) {
	memset(r, 0, sizeof(*r)); // as glibc does: regfree() after a failure is fine
	struct mrx *m = __sym_malloc(sizeof(*m) + strlen(p) + 1, 16, 0);
	m->ext = !!(f & REG_EXTENDED);
	m->icase = !!(f & REG_ICASE);
	int br = 0;
	for (const char *q = p; *q; ++q) {
		if (br) { if (*q == ']' && q[-1] != '[' && !(q[-1] == '^' && q[-2] == '[')) br = 0; continue; }
		if (*q == '[') br = 1;
		else if (*q == '\\') { if (!q[1]) { free(m); return REG_EESCAPE; } ++q; if (!m->ext && strchr("(){}|+?", *q)) __sym_fail("regular expression outside the model"); }
		else if (m->ext && strchr("(){}", *q)) __sym_fail("regular expression outside the model");
	}
	if (br) { free(m); return REG_EBRACK; }
	strcpy(m->pat, p);
	memset(r, 0, sizeof(*r));
	memcpy(r, &m, sizeof(m));
	return 0;
}
void regfree(regex_t *r) { struct mrx *m; memcpy(&m, r, sizeof(m)); free(m); }
size_t regerror(int e, const regex_t *r, char *buf, size_t n) {
	static const char msg[] = "Invalid regular expression";
	if (buf && n) { size_t k = n < sizeof(msg) ? n : sizeof(msg); memcpy(buf, msg, k); buf[k - 1] = 0; }
	return sizeof(msg);
}
static int rx_low(const struct mrx *m, int c) { return m->icase && c >= 'A' && c <= 'Z' ? c + 32 : c; }
static const char *rx_end(const char *p) { // end of the atom at p
	if (*p == '\\') return p + 2;
	if (*p == '[') {
		++p;
		if (*p == '^') ++p;
		if (*p == ']') ++p;
		while (*p != ']') ++p;
		return p + 1;
	}
	return p + 1;
}
static int rx_one(const struct mrx *m, const char *p, const char *e, int c) {
	if (*p == '\\') return rx_low(m, (unsigned char)p[1]) == rx_low(m, c);
	if (*p == '.') return 1;
	if (*p == '[') {
		++p; --e;
		int neg = *p == '^', hit = 0;
		if (neg) ++p;
		for (; p < e; ++p) {
			int lo = (unsigned char)*p, hi = lo;
			if (p + 2 < e && p[1] == '-') { hi = (unsigned char)p[2]; p += 2; }
			if (c >= lo && c <= hi) hit = 1;
			if (m->icase) for (int k = lo; k <= hi; ++k) if (rx_low(m, k) == rx_low(m, c)) hit = 1;
		}
		return hit != neg;
	}
	return rx_low(m, (unsigned char)*p) == rx_low(m, c);
}
static long rx_match(const struct mrx *m, const char *p, const char *pe, const char *s, const char *s0, const char *se) {
	// longest match of [p, pe) at s, as the end offset from s0, or -1
	if (p == pe) return s - s0;
	if (*p == '^' ) return s == s0 ? rx_match(m, p + 1, pe, s, s0, se) : -1;
	if (*p == '$' && p + 1 == pe) return s == se ? s - s0 : -1;
	const char *e = rx_end(p);
	int lo = 1, hi = 1;
	const char *nx = e;
	if (e < pe && *e == '*') { lo = 0; hi = 1 << 20; ++nx; }
	else if (m->ext && e < pe && *e == '+') { hi = 1 << 20; ++nx; }
	else if (m->ext && e < pe && *e == '?') { lo = 0; ++nx; }
	long best = -1;
	for (int k = 0; ; ++k) {
		if (k >= lo) { long r = rx_match(m, nx, pe, s, s0, se); if (r > best) best = r; }
		if (k >= hi || s >= se || !rx_one(m, p, e, (unsigned char)*s)) break;
		++s;
	}
	return best;
}
int regexec(const regex_t *r, const char *s, size_t nm, regmatch_t *mm, int f) {
	struct mrx *m;
	memcpy(&m, r, sizeof(m));
	const char *s0 = s, *se = s + strlen(s);
	if (f & REG_STARTEND) { s0 = s + mm[0].rm_so; se = s + mm[0].rm_eo; }
	for (const char *b = s0; b <= se; ++b) {
		long best = -1;
		const char *p = m->pat;
		for (;;) {
			const char *e = p;
			while (*e && !(m->ext && *e == '|')) e = rx_end(e);
			long k = rx_match(m, p, e, b, s0, se);
			if (k > best) best = k;
			if (!*e) break;
			p = e + 1;
		}
		if (best >= 0) {
			if (nm) { mm[0].rm_so = b - s; mm[0].rm_eo = (s0 - s) + best; }
			return 0;
		}
	}
	return REG_NOMATCH;
}
