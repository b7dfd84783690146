// Dates given as arguments: the instant they spell, or rejected.
#include "common.h"

static char arg[64];
static const char *pos;
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool part(int n, int *v) {
	*v = 0;
	for (int i = 0; i < n; ++i) { if (!dig(*pos)) return false; *v = *v * 10 + (*pos++ - '0'); }
	return true;
}
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static const int mlen[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static const int mday0[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};

struct date { int y, mo, d, h, mi, s, zone, zh, zm; bool range; };
// days of the proleptic Gregorian calendar since 1970
static int64_t days(int y, int mo, int d) {
	int py = y + 399; // years 0..: full 400-year cycles stay non-negative
	int64_t n = (int64_t)y * 365 + py / 4 - 99 - (py / 100 - 3) + (py / 400);
	n += mday0[mo - 1] + (mo > 2 && leap(y)) + d - 1;
	return n - 719528;
}
static int64_t instant(const struct date *t) {
	int64_t v = days(t->y, t->mo, t->d) * 86400 + t->h * 3600 + t->mi * 60 + t->s;
	if (!t->zone) return v - menv_gmtoff - menv_dst;
	int64_t off = (t->zh * 60 + t->zm) * 60;
	return t->zone == '-' ? v + off : v - off;
}
// The documented forms.  0: malformed, 1: accepted leniently, 2: documented
static int parse_date(struct date *t) {
	memset(t, 0, sizeof(*t));
	int level = 2;
	if (!part(4, &t->y)) return 0;
	bool dash = *pos == '-';
	if (dash) ++pos;
	if (!part(2, &t->mo)) return 0;
	bool dash2 = *pos == '-';
	if (dash2) ++pos;
	if (dash != dash2) level = 1;
	if (!part(2, &t->d)) return 0;
	if (!*pos) return level;
	if (*pos == 'T' || *pos == ' ') ++pos;
	else level = 1;
	if (!part(2, &t->h)) return 0;
	if (!*pos) return level;
	if (*pos == ':' || dig(*pos)) {
		if (*pos == ':') ++pos;
		if (!part(2, &t->mi)) return 0;
		if (!*pos) return level;
		if (*pos == ':' || dig(*pos)) {
			if (*pos == ':') ++pos;
			if (!part(2, &t->s)) return 0;
		}
	}
	if (!*pos) return level;
	t->zone = *pos++;
	if (t->zone == 'Z') return *pos ? 0 : level;
	if (t->zone != '+' && t->zone != '-') return 0;
	if (!part(2, &t->zh)) return 0;
	if (!*pos) return level;
	if (*pos == ':') ++pos;
	if (!part(2, &t->zm)) return 0;
	return *pos ? 0 : level;
}
static bool in_range(const struct date *t) {
	if (t->mo < 1 || t->mo > 12) return false;
	return t->d >= 1 && t->d <= mlen[t->mo - 1] + (t->mo == 2 && leap(t->y)) && t->h < 24 && t->mi < 60 && t->s < 60 && t->zh < 24 && t->zm < 60;
}

static char *put(char *p, int n, int v) {
	for (int i = n; i-- > 0; v /= 10) p[i] = '0' + v % 10;
	return p + n;
}
static int which = -1, nth; // only this field is symbolic (-1: all)
static char *two(char *p, unsigned max) {
	if (which >= 0 && which != nth++) return put(p, 2, nth * 7 % (max + 1));
	uint8_t a = sym_u8("digit"), b = sym_u8("digit");
	sym_assume((a <= 9) & (b <= 9) & (a * 10 + b <= max));
	*p++ = '0' + a;
	*p++ = '0' + b;
	return p;
}

static const char *tests[] = {"-newermt", "-newerat", "-newerct", "-newerBt", "-msince", "-asince", "-csince", "-Bsince"};
static struct mnode *f;
static struct timespec *field;
static int run(void) {
	int k = sym_param("test", 0);
	struct timespec *fs[] = {&f->mtime, &f->atime, &f->ctime, &f->btime};
	field = fs[k & 3];
	int64_t v = (int64_t)sym_u64("sec");
	uint32_t ns = sym_u32("nsec");
	sym_assume(ns < 1000000000);
	field->tv_sec = v;
	field->tv_nsec = ns;
	int ret = RUN("f", tests[k], arg);
	sym_note(tests[k]);
	sym_note(arg);
	SYM_ASSERT(out_is("f\n") || out_is(""), "the output is the path or nothing");
	notes();
	return ret;
}
static void judge(int ret, int64_t at) {
	bool e = (field->tv_sec > at) | ((field->tv_sec == at) & (field->tv_nsec > 0));
	if (mio_out.len) { SYM_ASSERT(e, "a file is printed only if it is newer than the instant"); sym_cover("printed"); }
	else { SYM_ASSERT(!e, "a file newer than the instant is printed"); sym_cover("skipped"); }
	SYM_ASSERT(ret == 0 && mio_err.len == 0, "no error for a valid date");
}
static bool accepted(int ret) { return ret == 0 && mio_err.len == 0; }
static void rejected(int ret) {
	SYM_ASSERT(ret != 0 && mio_err.len > 0, "a malformed date is rejected");
	SYM_ASSERT(mio_out.len == 0, "nothing is printed for a malformed date");
	sym_cover("rejected");
}

static int years[] = {0, 1900, 1969, 1970, 2000, 2023, 2024, 2038, 2100, 9999};

static char *form(char *p, int fm) {
	// date, separators, time and zone
	int sep = fm != 1 && fm != 6;
	static const int fields[] = {1, 1, 2, 3, 4, 4, 6, 5, 6};
	which = sym_choice("which", fields[fm]);
	*p = 0;
	p = put(p, 4, fm ? years[3 * sym_choice("year", 4)] : years[sym_choice("year", 10)]);
	if (sep) *p++ = '-';
	p = put(p, 2, fm ? 2 + 5 * sym_choice("month", 3) : 1 + sym_choice("month", 12));
	if (sep) *p++ = '-';
	p = two(p, 28);
	sym_assume((p[-1] != '0') | (p[-2] != '0'));
	if (fm <= 1) goto out;
	*p++ = fm & 1 ? ' ' : 'T';
	p = two(p, 23);
	if (fm == 2) goto out;
	if (sep) *p++ = ':';
	p = two(p, 59);
	if (fm == 3) goto out;
	if (sep) *p++ = ':';
	p = two(p, 59);
	if (fm == 4) goto out;
	if (fm == 5) { *p++ = 'Z'; goto out; }
	*p++ = sym_choice("neg", 2) ? '-' : '+';
	p = two(p, 23);
	if (fm == 7) goto out;
	if (sep) *p++ = ':';
	p = two(p, 59);
out:
	*p = 0;
	return p;
}

void harness(void) {
	world();
	f = mfs_mkfile(mfs_cwd, "f", "");
	int mode = sym_param("mode", 0), fm = sym_param("form", 0);
	menv_gmtoff = 5 * 3600 + 45 * 60;
	menv_dst = 3600;
	struct date t;
	if (mode == 0) {
		form(arg, fm);
		int ret = run();
		pos = arg;
		int ok = parse_date(&t);
		SYM_ASSERT(ok == 2, "(oracle) well-formed");
		judge(ret, instant(&t));
	} else if (mode == 1) { // every year and day around the turn of February and of the year
		static const struct { int mo, d; } md[] = {{1, 1}, {2, 28}, {2, 29}, {3, 1}, {12, 31}};
		char *p = arg;
		int y = 0;
		y = sym_param("from", 1800) + sym_choice("year", 100); // a quarter of a cycle
		p = put(p, 4, y);
		int k = sym_param("yr", 0);
		if (md[k].d == 29) sym_assume(leap(y));
		menv_dst = menv_gmtoff = 0;
		*p++ = '-';
		p = put(p, 2, md[k].mo);
		*p++ = '-';
		p = put(p, 2, md[k].d);
		*p++ = 'T';
		p = put(p, 2, 23);
		*p++ = ':';
		p = put(p, 2, 59);
		*p++ = ':';
		p = two(p, 59);
		if (k & 1) *p++ = 'Z';
		*p = 0;
		int ret = run();
		pos = arg;
		parse_date(&t);
		judge(ret, instant(&t));
	} else if (mode == 2) {
		int len = sym_param("len", 1), big = sym_param("big", 0);
		char *p = arg;
		*p++ = '@';
		if (big) {
			if (sym_choice("neg", 2)) *p++ = '-';
			static const char max[] = "9223372036854775807";
			for (int i = 0; i < big; ++i) {
				if (i < 12) { *p++ = max[i]; continue; }
				uint8_t d = sym_u8("digit"); sym_assume(d <= 9); *p++ = '0' + d;
			}
		} else for (int i = 0; i < len; ++i) {
			uint8_t c = sym_u8("c");
			if (i == len - 1) sym_assume(c != 0);
			else sym_assume(((c >= '0') & (c <= '9')) | (c == '+') | (c == '-') | (c == ' ') | (c == 'x'));
			*p++ = c;
		}
		*p = 0;
		int ret = run();
		pos = arg + 1;
		bool neg = *pos == '-', sign = *pos == '-' || *pos == '+';
		if (sign) ++pos;
		__int128 v = 0;
		bool ok = dig(*pos);
		for (; dig(*pos); ++pos) v = v * 10 + (*pos - '0');
		if (!ok || *pos || v > (neg ? (__int128)(1ull << 63) : (__int128)INT64_MAX)) { rejected(ret); return; }
		judge(ret, (int64_t)(neg ? -(uint64_t)v : (uint64_t)v));
	} else {
		char *p = arg, *end = arg;
		// a fixed date of this form
		static const char *fixed[] = {"2024-02-29", "20240229", "2024-02-29T13", "2024-02-29 13:07", "2024-02-29T13:07:42", "2024-02-29 13:07:42Z", "20240229T130742-0130", "2024-02-29 13:07:42+09", "2024-02-29T13:07:42-01:30"};
		strcpy(arg, fixed[fm]);
		end = arg + strlen(arg);
		int edit = sym_param("edit", 0);
		p = arg + sym_choice("pos", end - arg + (edit == 1));
		if (edit == 0) { uint8_t c = sym_u8("c"); sym_assume(c); *p = c; }
		if (edit == 1) { uint8_t c = sym_u8("c"); sym_assume(c); memmove(p + 1, p, end - p + 1); *p = c; }
		if (edit == 2) *p = 0;
		int ret = run();
		pos = arg;
		if (*pos == '@') return; // seconds
		int ok = parse_date(&t);
		if (!ok) { rejected(ret); return; }
		if (!in_range(&t)) return; // nothing is promised
		if (ok == 1 && !accepted(ret)) { rejected(ret); return; }
		judge(ret, instant(&t));
	}
}
