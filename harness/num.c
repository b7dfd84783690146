// Numeric arguments: read exactly, or rejected before anything happens.
#include "common.h"
#include <stdio.h>
typedef __int128 i128;

static char arg[40];
static const char *pos;
static bool digit(char c) { return c >= '0' && c <= '9'; }

// [+-]digits; false if malformed or out of range
static bool number(i128 *val) {
	bool neg = false;
	if (*pos == '+' || *pos == '-') neg = *pos++ == '-';
	if (!digit(*pos)) return false;
	i128 v = 0;
	for (; digit(*pos); ++pos) { v = v * 10 + (*pos - '0'); }
	*val = neg ? -v : v;
	return true;
}
static bool fits(i128 v) { return v >= 0 && v <= INT64_MAX; }

static void rejected(int ret) {
	notes();
	SYM_ASSERT(ret != 0 && mio_err.len > 0, "a malformed or oversized number is rejected");
	SYM_ASSERT(mio_out.len == 0, "nothing is printed for a malformed number");
	sym_cover("rejected");
}

void harness(void) {
	world();
	struct mnode *f = mfs_mkfile(mfs_cwd, "f", "");
	int kind = sym_param("kind", 0), len = sym_param("len", 3), big = sym_param("big", 0);
	static const char *units[] = {"", "", "cwbkMGTPx", "", "smhdwx", "", "", "", "", "", ""};
	static const char *tests[] = {"-links", "-inum", "-size", "-mmin", "-mtime", "-uid", "-mindepth", "-maxdepth", "-limit", "-exit", "-used"};
	char *p = arg;
	char *s = p;
	if (big) { // many digits, then a unit
		int cmp = sym_choice("cmp", 3);
		if (cmp) *p++ = cmp == 1 ? '+' : '-';
		int fix = sym_param("fix", 0);
		for (int i = 0; i < big; ++i) {
			static const char max[] = "9223372036854775807";
			if (i < fix) { *p++ = max[i]; continue; }
			uint8_t d = sym_u8("digit"); sym_assume(d <= 9); *p++ = '0' + d;
		}
		if (units[kind][0]) { int u = sym_choice("unit", 1 + strlen(units[kind])); if (u) *p++ = units[kind][u - 1]; }
	} else for (int i = 0; i < len; ++i) {
		uint8_t c = sym_u8("c");
		bool ok = (c >= '0' && c <= '9') | (c == '+') | (c == '-') | (c == ' ') | (c == 'x') | (c == '.');
		for (const char *u = units[kind]; *u; ++u) ok |= c == *u;
		if (kind == 9) ok = c >= '0' && c <= '9'; // anything else is not an argument of -exit
		sym_assume(ok);
		*p++ = c;
	}
	*p = 0;
	// the file's attribute
	i128 attr = 0;
	uint64_t v = sym_u64("attr");
	if (kind == 0) { f->nlink = (uint32_t)v; attr = (uint32_t)v; }
	if (kind == 1) { f->ino = v & INT64_MAX; attr = v & INT64_MAX; }
	if (kind == 2) { f->size = v & INT64_MAX; attr = v & INT64_MAX; }
	if (kind == 3 || kind == 4) {
		int64_t age = (int64_t)(v & ((1ull << 26) - 1)) - (1ll << 25); // the full range is covered with the time tests
		menv_now.tv_sec = 1700000000;
		menv_now.tv_nsec = 0;
		f->mtime.tv_sec = 1700000000 - age;
		f->mtime.tv_nsec = 0;
		attr = kind == 3 ? age / 60 : age;
	}
	if (kind == 5) { f->uid = (uint32_t)v; attr = (uint32_t)v; }
	if (kind == 10) { f->atime = f->ctime; attr = 0; }

	int ret;
	if (kind == 8) ret = RUN("f", "-print", "-limit", arg);
	else if (kind == 9) ret = RUN("f", "-exit", arg);
	else ret = RUN("f", tests[kind], arg);
	sym_note(arg);
	SYM_ASSERT(out_is("f\n") || out_is(""), "the output is the path or nothing");

	// what the argument means
	pos = s;
	i128 val = 0;
	int cmp = 0;
	bool ok = true;
	if (kind <= 5 || kind == 10) {
		if (*pos == '+' || *pos == '-') cmp = *pos++ == '+' ? 1 : 2;
		ok = number(&val);
		if (ok && !fits(val)) ok = false;
		i128 scale = 1;
		if (ok && kind == 2) {
			static const uint64_t sc[] = {1, 2, 512, 1ull << 10, 1ull << 20, 1ull << 30, 1ull << 40, 1ull << 50};
			scale = 512;
			if (*pos) { const char *u = strchr("cwbkMGTP", *pos); ok = u && !pos[1]; if (ok) scale = sc[u - "cwbkMGTP"]; }
			attr = ((uint64_t)attr + (uint64_t)scale - 1) / (uint64_t)scale;
		} else if (ok && kind == 4) {
			if (!*pos) attr = (int32_t)attr / 86400;
			else {
				i128 total = 0;
				for (;;) {
					static const int64_t mul[] = {1, 60, 3600, 86400, 604800};
					const char *u = strchr("smhdw", *pos);
					if (!*pos || !u) { ok = false; break; }
					total += val * mul[u - "smhdw"];
					++pos;
					if (!*pos) break;
					if (!number(&val) || !fits(val)) { ok = false; break; }
				}
				val = total;
				if (ok && !fits(val)) ok = false;
			}
		} else if (ok && *pos) ok = false;
		if (!ok) { rejected(ret); return; }
		notes();
		bool e = cmp == 1 ? attr > val : cmp == 2 ? attr < val : attr == val;
		if (mio_out.len) { SYM_ASSERT(e, "a file is printed only if the comparison holds"); sym_cover("printed"); }
		else { SYM_ASSERT(!e, "a file for which the comparison holds is printed"); sym_cover("skipped"); }
		SYM_ASSERT(ret == 0 && mio_err.len == 0, "no error for a valid number");
		return;
	}
	ok = number(&val) && !*pos;
	if (kind == 9 && !(ok && val >= 0 && val <= INT32_MAX)) {
		return;
	}
	if (kind == 6 || kind == 7) ok = ok && val >= 0 && val <= INT32_MAX;
	if (kind == 8) ok = ok && val >= 1 && val <= INT64_MAX;
	if (!ok) { rejected(ret); return; }
	notes();
	bool e = kind == 6 ? val == 0 : kind != 9;
	if (mio_out.len) { SYM_ASSERT(e, "depth limits are exact"); sym_cover("printed"); }
	else { SYM_ASSERT(!e, "the file is printed"); sym_cover("skipped"); }
	SYM_ASSERT(ret == (kind == 9 ? (int)val : 0) && mio_err.len == 0, "the exit status is exact");
}
