// -printf: every format string against a reference interpreter written from
// the documentation, every stat field, every root spelling, every time.
#include "common.h"
#include <errno.h>
#include <stdio.h>

static struct mnode *f;
static char ref[1024];
static int nref;
static void put(char c) { ref[nref++] = c; }
static void puts_(const char *s) { while (*s) put(*s++); }

// ---------------------------------------------------------------- formats
// the value of each directive for the file d/f of format_mode()
static const char *value(char c) {
	switch (c) {
	case 'a': return "Fri Feb 13 23:31:30.0000000010 2009";
	case 'b': return "6";
	case 'c': return "Thu Jan  1 00:00:01.9999999990 1970";
	case 'd': return "1";
	case 'D': return "2049";
	case 'f': return "f";
	case 'F': return "ext4";
	case 'g': return "grp";
	case 'G': return "8";
	case 'h': return "d";
	case 'H': return "d";
	case 'i': return "12345";
	case 'k': return "3";
	case 'l': return "";
	case 'm': return "4640";
	case 'M': return "-rwSr-----";
	case 'n': return "2";
	case 'p': return "d/f";
	case 'P': return "f";
	case 's': return "1024";
	case 'S': return "3";
	case 't': return "Sat Mar  4 05:06:07.1234567890 2000";
	case 'u': return "usr";
	case 'U': return "7";
	case 'w': return "Wed Dec 31 23:59:59.5000000000 1969";
	case 'y': return "f";
	case 'Y': return "f";
	default: return NULL;
	}
}
static const char tletters[] = "%+@aAbBcCdDeFgGhHIjklmMnprRsStTuUVwWxXyYzZ";
// the same time as %a (Friday 2009-02-13 23:31:30.000000001) by conversion letter
static const char *avalue(char c) {
	switch (c) {
	case '%': return "%";
	case '+': return "2009-02-13+23:31:30.0000000010";
	case '@': return "1234567890.0000000010";
	case 'a': return "Fri";
	case 'A': return "Friday";
	case 'b': return "Feb";
	case 'B': return "February";
	case 'c': return "Fri Feb 13 23:31:30 2009";
	case 'C': return "20";
	case 'd': return "13";
	case 'D': return "02/13/09";
	case 'e': return "13";
	case 'F': return "2009-02-13";
	case 'g': return "09";
	case 'G': return "2009";
	case 'h': return "Feb";
	case 'H': return "23";
	case 'I': return "11";
	case 'j': return "044";
	case 'k': return "23";
	case 'l': return "11";
	case 'm': return "02";
	case 'M': return "31";
	case 'n': return "\n";
	case 'p': return "PM";
	case 'r': return "11:31:30 PM";
	case 'R': return "23:31";
	case 's': return "1234567890";
	case 'S': return "30.0000000010";
	case 't': return "\t";
	case 'T': return "23:31:30.0000000010";
	case 'u': return "5";
	case 'U': return "06";
	case 'V': return "07";
	case 'w': return "5";
	case 'W': return "06";
	case 'x': return "02/13/09";
	case 'X': return "23:31:30";
	case 'y': return "09";
	case 'Y': return "2009";
	case 'z': return "+0000";
	case 'Z': return "UTC";
	default: return NULL;
	}
}
// the other fields are distinguished by their seconds
static const char *tsecs(char field) {
	switch (field) {
	case 'B': case 'W': return "-1";
	case 'C': return "1";
	case 'T': return "952146367";
	default: return NULL;
	}
}
static bool digit(char c) { return c >= '0' && c <= '9'; }
// false: the format is invalid
static bool reference(const char *s) {
	while (*s) {
		char c = *s++;
		if (c == '\\') {
			c = *s;
			if (c >= '0' && c <= '7') {
				unsigned v = 0;
				for (int i = 0; i < 3 && *s >= '0' && *s <= '7'; ++i) v = v * 8 + (*s++ - '0');
				put((char)v);
				continue;
			}
			++s;
			switch (c) {
			case 'a': put('\a'); break;
			case 'b': put('\b'); break;
			case 'f': put('\f'); break;
			case 'n': put('\n'); break;
			case 'r': put('\r'); break;
			case 't': put('\t'); break;
			case 'v': put('\v'); break;
			case '\\': put('\\'); break;
			case 'c': return true; // stop right here
			default: return false;
			}
			continue;
		}
		if (c != '%') { put(c); continue; }
		if (*s == '%') { put('%'); ++s; continue; }
		bool minus = false, hash = false, zero = false, plus = false, space = false;
		for (;; ++s) {
			bool *fl = *s == '-' ? &minus : *s == '#' ? &hash : *s == '0' ? &zero : *s == '+' ? &plus : *s == ' ' ? &space : NULL;
			if (!fl) break;
			if (*fl) return false;
			*fl = true;
		}
		int width = 0, prec = -1;
		while (digit(*s)) width = width * 10 + (*s++ - '0');
		if (*s == '.') { ++s; prec = 0; while (digit(*s)) prec = prec * 10 + (*s++ - '0'); }
		c = *s;
		if (!c) return false;
		++s;
		const char *v = value(c);
		bool numeric = c == 'd' || c == 'm' || c == 'S';
		if (c == 'A' || c == 'B' || c == 'C' || c == 'T' || c == 'W') {
			char t = *s;
			if (!t) return false;
			++s;
			bool known = false;
			for (const char *q = tletters; *q; ++q) if (*q == t) known = true;
			if (!known) return false;
			if (c == 'A') v = avalue(t);
			else if (t == 's') v = tsecs(c);
			else { sym_cover("timeskip"); sym_assume(0); }
		}
		if (!v) return false;
		if ((hash || zero || plus || space) && !numeric) return false;
		if (c == 'S') sym_assume(!hash && !plus && !space && prec != 0); // %g: left to libc
		int len = strlen(v);
		if (!numeric && prec >= 0 && len > prec) len = prec;
		int zeros = 0;
		char sign = 0;
		if (c == 'd') { sign = plus ? '+' : space ? ' ' : 0; if (prec > len) zeros = prec - len; }
		if (c == 'm') { if (prec > len) zeros = prec - len; else if (hash) zeros = 1; }
		int pad = width - len - zeros - !!sign;
		if (pad < 0) pad = 0;
		bool zpad = zero && !minus && (prec < 0 || c == 'S');
		if (!minus && !zpad) for (int i = 0; i < pad; ++i) put(' ');
		if (sign) put(sign);
		if (zpad) for (int i = 0; i < pad; ++i) put('0');
		for (int i = 0; i < zeros; ++i) put('0');
		for (int i = 0; i < len; ++i) put(v[i]);
		if (minus) for (int i = 0; i < pad; ++i) put(' ');
	}
	return true;
}

static void format_mode(void) {
	struct mnode *d = mfs_mkdir(mfs_cwd, "d");
	f = mfs_mkfile(d, "f", "");
	f->ino = 12345;
	f->mode = S_IFREG | 04640;
	f->nlink = 2;
	f->size = 1024;
	f->blocks = 6;
	f->uid = 7;
	f->gid = 8;
	f->dev_major = 8;
	f->dev_minor = 1;
	f->atime = (struct timespec){1234567890, 1};
	f->btime = (struct timespec){-1, 500000000};
	f->ctime = (struct timespec){1, 999999999};
	f->mtime = (struct timespec){952146367, 123456789};
	menv_users[0] = (struct mpw){"usr", 7};
	menv_nusers = 1;
	menv_groups[0] = (struct mpw){"grp", 8};
	menv_ngroups = 1;
	mfs_root->dev_major = 8;
	mfs_root->dev_minor = 1;
	menv_mounts[0] = (struct mmnt){"/", "ext4", "/dev/x"};
	menv_nmounts = 1;
	// a concrete prefix, symbolic bytes, and one more letter from a set
	static const char *pre[] = {"", "%", "\\", "%A", "%-", "%5", "<%", "%."};
	static const char *post[] = {"", "d", "m", "s", "f", "S", "As", "p>", "%%"};
	static char fmt[32];
	int n = sym_param("len", 3);
	strcpy(fmt, pre[sym_param("pre", 0)]);
	char *p = fmt + strlen(fmt);
	for (int i = 0; i < n; ++i) {
		p[i] = sym_u8("format");
		sym_assume(p[i] != 0);
		static const char *alpha[] = {"", "0123456789-#+ .%\\abcdDfFgGhHiklmMnpPsStuUwyYACTzq\x80", "01234567890abcfnrtvx\\%d\"", "%+@aAbBcCdDeFgGhHIjklmMnprRsStTuUVwWxXyYzZ!EO0"};
		const char *al = alpha[sym_param("alpha", 0)];
		if (*al) {
			bool ok = false;
			for (const char *q = al; *q; ++q) ok |= p[i] == *q;
			sym_assume(ok);
		}
		if (sym_param("flags", 0)) {
			bool ok = p[i] == '-' || p[i] == '#' || p[i] == '0' || p[i] == '+' || p[i] == ' ' || p[i] == '.' || p[i] == '5' || p[i] == '1';
			sym_assume(ok);
		}
	}
	p[n] = 0;
	strcat(fmt, post[sym_param("post", 0)]);
	sym_note("format"); sym_note(fmt);
	int r = RUN("-j1", "d", "-mindepth", "1", "-printf", fmt);
	notes();
	bool ok = reference(fmt);
	if (ok) {
		SYM_ASSERT(r == 0, "a valid format is accepted");
		SYM_ASSERT((int)mio_out.len == nref, "the output has the documented length");
		bool same = true;
		for (int i = 0; i < nref; ++i) same &= mio_out.buf[i] == ref[i];
		SYM_ASSERT(same, "the output is what the format specifies");
		sym_cover("valid");
	} else {
		SYM_ASSERT(r != 0, "an invalid format is rejected");
		SYM_ASSERT(mio_out.len == 0, "nothing is printed with an invalid format");
		SYM_ASSERT(mio_err.len > 0, "an invalid format is reported");
		sym_cover("invalid");
	}
	no_leaks();
}

// ---------------------------------------------------------------- numbers
static void number_mode(void) {
	f = mfs_mkfile(mfs_cwd, "f", "");
	static const char *dirs[] = {"i", "s", "n", "U", "G", "b", "k", "D", "m", "u", "g"};
	int d = sym_param("dir", 0);
	menv_nusers = menv_ngroups = 0;
	uint64_t v = 0;
	switch (d) {
	case 0: v = f->ino = sym_u64("value"); break;
	case 1: v = f->size = sym_u64("value") >> 1; break;
	case 2: v = f->nlink = sym_u32("value"); break;
	case 3: case 9: v = f->uid = sym_u32("value"); break;
	case 4: case 10: v = f->gid = sym_u32("value"); break;
	case 5: v = f->blocks = sym_u64("value") >> 10; break;
	case 6: f->blocks = sym_u64("value") >> 10; v = f->blocks / 2 + f->blocks % 2; break;
	case 7: f->dev_major = sym_u32("major") & 0xfff; f->dev_minor = sym_u32("minor") & 0xfffff; v = (f->dev_minor & 0xff) | (uint64_t)f->dev_major << 8 | (uint64_t)(f->dev_minor & ~0xffu) << 12; break;
	case 8: f->mode = S_IFREG | (v = sym_u16("value") & 07777); break;
	}
	static const char *forms[] = {"", "12", "-12", "#", "012", ".3"};
	int form = sym_param("form", 0);
	char fmt[16] = "<%";
	strcat(fmt, forms[form]);
	strcat(fmt, dirs[d]);
	strcat(fmt, ">");
	int r = RUN("-j1", "f", "-printf", fmt);
	notes();
	SYM_ASSERT(r == 0, "exit status 0 without errors");
	char *s = mio_out.buf, *e = s + mio_out.len;
	SYM_ASSERT(s < e && *s == '<' && e[-1] == '>', "literal text is kept");
	++s; --e;
	int total = e - s;
	if (form == 1) while (s < e && *s == ' ') ++s;
	if (form == 2) while (s < e && e[-1] == ' ') --e;
	int nd = 0;
	uint64_t x = 0;
	bool ok = true;
	for (char *c = s; c < e; ++c, ++nd) {
		int base = d == 8 ? 8 : 10;
		ok &= (unsigned char)(*c - '0') < base;
		x = x * base + (*c - '0');
	}
	SYM_ASSERT(nd > 0 && ok, "the number is printed in decimal (mode: octal)");
	SYM_ASSERT(x == v, "the number printed is the value of the field");
	if (form == 1 || form == 2) SYM_ASSERT(total == (nd < 12 ? 12 : nd), "numbers are padded to the field width");
	if (form == 4) SYM_ASSERT(total == 12 && nd == 12, "zero padding fills the field width");
	if (form == 5) SYM_ASSERT(nd == 3 || nd == 4, "precision is a minimum number of digits");
	if (nd > 1 && form < 3) SYM_ASSERT(s[0] != '0', "numbers have no leading zeros");
	if (form == 3) SYM_ASSERT(s[0] == '0', "%#m has a leading zero");
	no_leaks();
	sym_cover("done");
}

// ---------------------------------------------------------------- modes and types
static void mode_mode(void) {
	static const unsigned fm[] = {S_IFBLK, S_IFCHR, S_IFDIR, S_IFIFO, S_IFREG, S_IFLNK, S_IFSOCK, 0};
	static const char ls[] = "bcdp-ls?", ty[] = "bcdpflsU";
	struct mnode *d = mfs_mkdir(mfs_cwd, "d");
	f = mfs_mkfile(d, "f", "");
	bool sm = sym_param("symmode", 0);
	int k = sm ? 4 : sym_choice("type", 8);
	static const unsigned ms[] = {0, 07777, 04755, 01640};
	unsigned m = sm ? sym_u16("mode") & 07777 : ms[sym_choice("mode", 4)];
	f->mode = fm[k] | m;
	d->ent[0].type = sym_choice("dt", 2) ? 0 : fm[k] >> 12;
	char Y = ty[k];
	bool link = fm[k] == S_IFLNK;
	int follow = sym_choice("follow", 2);
	int kt = k;
	unsigned mt = m;
	static const char *targets[] = {"nowhere", "f", "g", "/w/d/g", "x/y", "g/y"};
	int tg = 0;
	bool err = false;
	if (link) {
		tg = sym_choice("target", 6);
		f->target = targets[tg];
		if (tg == 1) Y = 'L';
		else if (tg == 2 || tg == 3) {
			struct mnode *g = mfs_mkfile(mfs_cwd, "gg", "");
			d->ent[1] = (struct ment){"g", g, S_IFREG >> 12, true};
			d->nent = 2;
			kt = sym_choice("gtype", 5);
			g->mode = fm[kt] | (mt = ms[sym_choice("gmode", 4)]);
			Y = ty[kt];
		} else { if (tg == 5) mfs_mkfile(mfs_cwd, "g", ""); Y = 'N'; }
		if (tg == 2) { d->ent[1].gone = false; }
		else if (tg == 3) { d->ent[1].gone = false; }
	}
	if (link && (tg == 2 || tg == 3)) sym_assume(fm[kt] != S_IFDIR);
	bool through = link && follow && (tg == 2 || tg == 3);
	if (link && follow && tg == 1) err = true;
	int r = RUN("-j1", follow ? "-L" : "-P", "d", "-mindepth", "1", "-name", "f", "-printf", "%M %m %y %Y %l");
	notes();
	if (err) {
		SYM_ASSERT(r != 0, "a symbolic link loop is an error when links are followed");
		no_leaks();
		sym_cover("done");
		return;
	}
	if (through) k = kt; else mt = m;
	char e[64];
	int n = 0;
	e[n++] = ls[k];
	for (int i = 0; i < 3; ++i) {
		unsigned b = mt >> (6 - 3 * i);
		bool sp = mt & (04000 >> i);
		e[n++] = b & 4 ? 'r' : '-';
		e[n++] = b & 2 ? 'w' : '-';
		bool x = b & 1;
		e[n++] = sp ? (i == 2 ? (x ? 't' : 'T') : (x ? 's' : 'S')) : (x ? 'x' : '-');
	}
	SYM_ASSERT(mio_out.len > 11, "the mode is printed");
	bool same = true;
	for (int i = 0; i < n; ++i) same &= mio_out.buf[i] == e[i];
	SYM_ASSERT(same, "%M is the symbolic mode");
	unsigned x = 0;
	char *s = mio_out.buf + n, *end = mio_out.buf + mio_out.len;
	SYM_ASSERT(*s == ' ', "%M has ten characters");
	for (++s; s < end && *s != ' '; ++s) x = x * 8 + (*s - '0');
	SYM_ASSERT(x == mt, "%m is the mode in octal");
	SYM_ASSERT(end - s >= 5, "types are printed");
	char y = link && !through ? 'l' : ty[k];
	SYM_ASSERT(s[1] == y, "%y is the type of the file");
	SYM_ASSERT(s[2] == ' ' && s[3] == Y && s[4] == ' ', "%Y is the type of the target");
	s += 5;
	const char *l = link && !through ? f->target : "";
	SYM_ASSERT((size_t)(end - s) == strlen(l) && memcmp(s, l, end - s) == 0, "%l is the target of the link");
	SYM_ASSERT(r == 0, "exit status 0 without errors");
	no_leaks();
	sym_cover("done");
}

// ---------------------------------------------------------------- paths
struct mnode *mfs_walk(struct mnode *base, const char *path);
static const char *roots[] = {"r", "r/", "./r", "/w/r", "r//", "d/r", "../w/r", ".", "./", "/", "//", "..", "d/../r", "r/./", "d//r/", "r/.."};
static char *field(char **p) {
	char *s = *p;
	while (**p != 1) ++*p;
	*(*p)++ = 0;
	return s;
}
static struct mnode *at(const char *path) {
	// a trailing slash or dot leads to the same directory
	return mfs_walk(path[0] == '/' ? mfs_root : mfs_cwd, path);
}
static void path_mode(void) {
	struct mnode *r = mfs_mkdir(mfs_cwd, "r"), *d = mfs_mkdir(mfs_cwd, "d");
	struct mnode *rr = mfs_mkdir(d, "r");
	mfs_mkfile(r, "a", "");
	struct mnode *b = mfs_mkdir(r, "b");
	mfs_mkfile(b, "c", "");
	mfs_mkfile(rr, "-x", "");
	int rt = sym_choice("root", 16);
	const char *root = roots[rt];
	static const char *S[] = {"-Sbfs", "-Sdfs", "-Sids", "-Seds"};
	int ret = sym_choice("depth", 2)
		? RUN("-j1", S[sym_choice("strategy", 4)], "-depth", root, "-printf", "%p\\1%f\\1%h\\1%H\\1%P\\1%d\\1%i\\1\\n")
		: RUN("-j1", S[sym_choice("strategy", 4)], root, "-printf", "%p\\1%f\\1%h\\1%H\\1%P\\1%d\\1%i\\1\\n");
	notes();
	SYM_ASSERT(ret == 0, "exit status 0 without errors");
	char *s = mio_out.buf, *end = s + mio_out.len;
	int lines = 0;
	while (s < end) {
		int ones = 0;
		for (char *q = s; q < end && *q != '\n'; ++q) ones += *q == 1;
		SYM_ASSERT(ones == 7, "every field is printed");
		char *p = field(&s), *fn = field(&s), *h = field(&s), *H = field(&s), *P = field(&s), *dep = field(&s), *ino = field(&s);
		++s;
		lines++;
		struct mnode *n = at(p);
		SYM_ASSERT(n, "%p is a path to a file that exists");
		SYM_ASSERT(atol(ino) == (long)n->ino, "%p is a path to the file the other fields describe");
		SYM_ASSERT(strcmp(H, root) == 0, "%H is the starting point as it was given");
		int depth = atoi(dep);
		if (depth == 0) {
			SYM_ASSERT(strcmp(p, root) == 0 && P[0] == 0, "at a starting point, %p is the argument and %P is empty");
		} else {
			size_t lr = strlen(root);
			char e[64];
			strcpy(e, root);
			if (root[lr - 1] != '/') strcat(e, "/");
			strcat(e, P);
			SYM_ASSERT(strcmp(p, e) == 0, "%p is %H followed by %P");
			int sl = 0;
			for (char *q = P; *q; ++q) sl += *q == '/';
			SYM_ASSERT(depth == sl + 1, "%d is the number of components of %P");
		}
		// %f: the last component; %h: the rest
		SYM_ASSERT(fn[0], "%f is not empty");
		size_t lf = strlen(fn);
		bool bare = true; // no slash in %f except trailing ones
		for (size_t i = 0; i + 1 < lf; ++i) bare &= fn[i] != '/' || fn[i + 1] == '/';
		if (fn[0] != '/') {
			SYM_ASSERT(bare, "%f is the last component of %p");
			char j[64];
			strcpy(j, h);
			strcat(j, "/");
			strcat(j, fn);
			SYM_ASSERT(at(j) == n, "%h/%f leads to the same file as %p");
			size_t lp = strlen(p);
			SYM_ASSERT(lf <= lp && strcmp(p + lp - lf, fn) == 0, "%p ends in %f");
			if (lp > lf && depth > 0) {
				size_t lh = strlen(h);
				bool tail = strncmp(p, h, lh) == 0;
				for (size_t i = lh; i < lp - lf; ++i) tail &= p[i] == '/';
				SYM_ASSERT(tail, "%p starts with %h");
			}
		} else SYM_ASSERT(n == mfs_root, "%f starts with a slash only for the root directory");
	}
	SYM_ASSERT(lines > 0, "the starting point is printed");
	no_leaks();
	sym_cover("done");
}

// ---------------------------------------------------------------- times
static int num(char **s, int n) {
	int v = 0;
	for (int i = 0; i < n; ++i) {
		char c = *(*s)++;
		SYM_ASSERT((unsigned char)(c - '0') < 10, "times are printed in decimal");
		v = v * 10 + (c - '0');
	}
	return v;
}
static void lit(char **s, const char *l) {
	while (*l) { SYM_ASSERT(**s == *l, "the time has the documented form"); ++*s; ++l; }
}
static void time_mode(void) {
	f = mfs_mkfile(mfs_cwd, "f", "");
	// days around the epoch, leap days, year ends, far past and future
	static const struct { int days; const char *wd, *mon, *d, *date; } days[] = {
		{0, "Thu", "Jan", " 1", "1970-01-01"}, {-1, "Wed", "Dec", "31", "1969-12-31"}, {11016, "Tue", "Feb", "29", "2000-02-29"},
		{24855, "Tue", "Jan", "19", "2038-01-19"}, {-25567, "Mon", "Jan", " 1", "1900-01-01"}, {19722, "Sun", "Dec", "31", "2023-12-31"}, {2932896, "Fri", "Dec", "31", "9999-12-31"},
	};
	int k = sym_choice("day", 7);
	uint32_t sod = sym_u32("second");
	sym_assume(sod < 86400);
	uint32_t nsec = sym_u32("nsec");
	sym_assume(nsec < 1000000000);
	int64_t sec = (int64_t)days[k].days * 86400 + sod;
	static const char fl[] = "atcw", Fl[] = "ATCB";
	int w = k == 0 ? sym_choice("field", 4) : k % 4;
	f->atime = f->btime = f->ctime = f->mtime = (struct timespec){86400 * 7 + 1, 1};
	*(w == 0 ? &f->atime : w == 1 ? &f->mtime : w == 2 ? &f->ctime : &f->btime) = (struct timespec){sec, nsec};
	static const char *forms[] = {"", "+", "@", "s", "S", "T", "k", "l", "H", "M", "F"};
	int form = sym_param("form", 0);
	char fmt[8] = {'%', form ? Fl[w] : fl[w], 0};
	strcat(fmt, forms[form]);
	int r = RUN("-j1", "f", "-printf", fmt);
	notes();
	SYM_ASSERT(r == 0, "exit status 0 without errors");
	char *s = mio_out.buf, *e = s + mio_out.len;
	int64_t got = 0;
	int64_t gns = nsec;
	bool neg = false;
	int y;
	switch (form) {
	case 0:
		lit(&s, days[k].wd); lit(&s, " "); lit(&s, days[k].mon); lit(&s, " "); lit(&s, days[k].d); lit(&s, " ");
		got = num(&s, 2) * 3600; lit(&s, ":"); got += num(&s, 2) * 60; lit(&s, ":"); got += num(&s, 2); lit(&s, "."); gns = num(&s, 9); lit(&s, "0 ");
		y = num(&s, 4);
		SYM_ASSERT(y == atoi(days[k].date), "the year is right");
		SYM_ASSERT(got == sod, "the time of day is right");
		break;
	case 1:
		lit(&s, days[k].date); lit(&s, "+");
		got = num(&s, 2) * 3600; lit(&s, ":"); got += num(&s, 2) * 60; lit(&s, ":"); got += num(&s, 2); lit(&s, "."); gns = num(&s, 9); lit(&s, "0");
		SYM_ASSERT(got == sod, "the time of day is right");
		break;
	case 2: case 3:
		if (s < e && *s == '-') { neg = true; ++s; }
		SYM_ASSERT(s < e, "a number is printed");
		for (; s < e && *s != '.'; ++s) { SYM_ASSERT((unsigned char)(*s - '0') < 10, "times are printed in decimal"); got = got * 10 + (*s - '0'); }
		if (neg) got = -got;
		SYM_ASSERT(got == sec, "the seconds since the epoch are right");
		if (form == 2) { lit(&s, "."); gns = num(&s, 9); lit(&s, "0"); }
		break;
	case 4: got = num(&s, 2); lit(&s, "."); gns = num(&s, 9); lit(&s, "0"); SYM_ASSERT(got < 60 && (sod - got) % 60 == 0, "the seconds are right"); break;
	case 5:
		got = num(&s, 2) * 3600; lit(&s, ":"); got += num(&s, 2) * 60; lit(&s, ":"); got += num(&s, 2); lit(&s, "."); gns = num(&s, 9); lit(&s, "0");
		SYM_ASSERT(got == sod, "the time of day is right");
		break;
	case 6: case 7: case 8:
		if (form != 8 && *s == ' ') { ++s; got = num(&s, 1); } else { got = num(&s, 2); if (form != 8) SYM_ASSERT(got >= 10, "no leading zeros"); }
		if (form == 7) {
			SYM_ASSERT(got >= 1 && got <= 12, "hours run from 1 to 12");
			if (got == 12) got = 0;
			if (sod >= 43200) got += 12;
		}
		SYM_ASSERT(got * 3600 <= (int64_t)sod && (int64_t)sod < (got + 1) * 3600, "the hour is right");
		break;
	case 9: got = num(&s, 2); SYM_ASSERT(got < 60 && sod / 60 % 60 == got, "the minute is right"); break;
	case 10: lit(&s, days[k].date); break;
	}
	SYM_ASSERT(s == e, "nothing else is printed");
	SYM_ASSERT(gns == nsec, "the fraction of a second is right");
	no_leaks();
	sym_cover("done");
}

// ---------------------------------------------------------------- names and file systems
static void name_mode(void) {
	f = mfs_mkfile(mfs_cwd, "f", "");
	menv_users[0] = (struct mpw){"alice", 0};
	menv_users[1] = (struct mpw){"bob", 1000};
	menv_users[2] = (struct mpw){"bob2", 1000};
	menv_nusers = 3;
	menv_groups[0] = (struct mpw){"staff", 0};
	menv_groups[1] = (struct mpw){"wheel", 1000};
	menv_ngroups = 2;
	struct mnode *g = mfs_mkfile(mfs_cwd, "g", ""), *h = mfs_mkfile(mfs_cwd, "h", "");
	struct mnode *all[] = {f, g, h};
	static const uint32_t ids[] = {0, 1000, 4294967294u};
	static const char *un[] = {"alice", "bob", "4294967294"}, *gn[] = {"staff", "wheel", "4294967294"};
	char e[128] = "";
	for (int i = 0; i < 3; ++i) {
		int u = sym_choice("user", 3), gr = sym_choice("group", 3);
		all[i]->uid = ids[u];
		all[i]->gid = ids[gr];
		strcat(e, un[u]); strcat(e, ":"); strcat(e, gn[gr]); strcat(e, ";");
	}
	int r = RUN("-j1", "f", "g", "h", "-printf", "%u:%g;");
	notes();
	SYM_ASSERT(r == 0, "exit status 0 without errors");
	SYM_ASSERT(out_is(e), "%u and %g are the names of the owner and group, or their numbers");
	no_leaks();
	sym_cover("done");
}

void harness(void) {
	world();
	switch (sym_param("mode", 0)) {
	case 0: format_mode(); break;
	case 1: number_mode(); break;
	case 2: mode_mode(); break;
	case 3: path_mode(); break;
	case 4: time_mode(); break;
	case 5: name_mode(); break;
	}
}
