// Colours: the text is unchanged, and each name has the colour LS_COLORS gives it.
#include "common.h"
#include <stdio.h>

static char lsc[256];
struct def { const char *key; const char *val; }; // val: NULL if switched off
static struct def defs[24];
static int ndef;
static void base(const char *k, const char *v) { defs[ndef].key = k; defs[ndef++].val = v; }
static const char *val(const char *k) {
	for (int i = 0; i < ndef; ++i) if (strcmp(defs[i].key, k) == 0) return defs[i].val;
	return NULL;
}
static void set(const char *k, const char *v, const char *means) {
	size_t n = strlen(lsc);
	if (n) lsc[n++] = ':';
	strcpy(lsc + n, k);
	strcat(lsc, "=");
	strcat(lsc, v);
	for (int i = 0; i < ndef; ++i) if (strcmp(defs[i].key, k) == 0) defs[i].val = means;
}
static void defaults(void) {
	base("no", NULL); base("fi", ""); base("mh", NULL); base("ex", "01;32"); base("sg", "30;43"); base("su", "37;41");
	base("di", "01;34"); base("st", "37;44"); base("ow", "34;42"); base("tw", "30;42"); base("ln", "01;36"); base("or", NULL); base("mi", NULL);
	base("bd", "01;33"); base("cd", "01;33"); base("pi", "33"); base("so", "01;35");
}
// each key is left alone, given a colour of its own, or switched off
static void vary(const char *k, int i) {
	static const char *vals[] = {"91", "92", "93", "94", "95", "96", "97", "98"};
	int c = sym_choice(k, 3);
	if (c == 1) set(k, vals[i], vals[i]);
	if (c == 2) set(k, i & 1 ? "00" : "", NULL);
}

// definitions of extensions: the last one that matches counts
static struct { const char *ext, *val; } exts[6];
static int next;
static const char *ext_color(const char *name) {
	size_t n = strlen(name);
	for (int i = next; i-- > 0; ) {
		size_t k = strlen(exts[i].ext);
		if (k > n) continue;
		bool same = memcmp(name + n - k, exts[i].ext, k) == 0;
		bool fold = true;
		for (size_t j = 0; j < k; ++j) {
			char a = name[n - k + j], b = exts[i].ext[j];
			if (a >= 'A' && a <= 'Z') a += 32;
			if (b >= 'A' && b <= 'Z') b += 32;
			if (a != b) fold = false;
		}
		if (!same) { // another spelling with another colour makes both case-sensitive
			for (int o = 0; o < next; ++o) if (o != i && strcasecmp(exts[o].ext, exts[i].ext) == 0 && strcmp(exts[o].ext, exts[i].ext) != 0 && strcmp(exts[o].val, exts[i].val) != 0) fold = false;
		}
		if (same || fold) return exts[i].val;
	}
	return NULL;
}

static const char *normal(const char *c) { return c && !*c ? val("no") : c; }
static const char *reg(const struct mnode *m, const char *name) {
	const char *c = NULL;
	if (val("su") && (m->mode & 04000)) c = val("su");
	else if (val("sg") && (m->mode & 02000)) c = val("sg");
	else if (val("ex") && (m->mode & 0111)) c = val("ex");
	else if (val("mh") && m->nlink > 1) c = val("mh");
	if (!c) c = ext_color(name);
	if (!c) c = val("fi");
	return normal(c);
}
static const char *dir(const struct mnode *m) {
	const char *c;
	if (val("tw") && (m->mode & 01002) == 01002) c = val("tw");
	else if (val("ow") && (m->mode & 0002)) c = val("ow");
	else if (val("st") && (m->mode & 01000)) c = val("st");
	else c = val("di");
	return normal(c);
}
static const char *other(mode_t mode) {
	switch (mode & S_IFMT) {
	case S_IFBLK: return val("bd");
	case S_IFCHR: return val("cd");
	case S_IFIFO: return val("pi");
	default: return val("so");
	}
}

// The output, taken apart
static char text[512];
static const char *attr[512];
static size_t nt;
static void split(void) {
	static char codes[512];
	size_t nc = 0;
	const char *cur = NULL, *p = mio_out.buf, *end = p + mio_out.len;
	nt = 0;
	while (p < end) {
		if (*p == '\033') {
			SYM_ASSERT(end - p > 2 && p[1] == '[', "escape sequences are well-formed");
			p += 2;
			char *c = codes + nc;
			while (p < end && *p != 'm') { SYM_ASSERT((*p >= '0' && *p <= '9') || *p == ';', "escape sequences are well-formed"); codes[nc++] = *p++; }
			SYM_ASSERT(p < end, "escape sequences are complete");
			++p;
			codes[nc++] = 0;
			cur = strcmp(c, "0") == 0 || strcmp(c, "1;0") == 0 ? NULL : c;
			continue;
		}
		if (*p == '\n') SYM_ASSERT(!cur, "no colour is left on at the end of a line");
		text[nt] = *p++;
		attr[nt++] = cur;
	}
	SYM_ASSERT(!cur, "no colour is left on at the end");
	text[nt] = 0;
}
static size_t at;
static void part(const char *s, size_t n, const char *color) {
	for (size_t i = 0; i < n; ++i, ++at) {
		SYM_ASSERT(at < nt && text[at] == s[i], "the text is the path");
		if (color) { SYM_ASSERT(attr[at] && strcmp(attr[at], color) == 0, "the name has the colour it should have"); }
		else SYM_ASSERT(!attr[at], "a name without a colour is printed plainly");
	}
}

static int follow;
static int run(const char *a, const char *b) { return follow ? RUN("-color", "-j1", "-L", "d", a, b) : RUN("-color", "-j1", "d", a, b); }

void harness(void) {
	world();
	menv_vars[0][0] = "LS_COLORS";
	menv_vars[0][1] = lsc;
	defaults();
	int mode = sym_param("mode", 0), set_ = sym_param("set", 0);
	struct mnode *d = mfs_mkdir(mfs_cwd, "d"), *f = NULL;
	static char name[12] = "f.txt";
	const char *color = NULL;
	struct mnode *colored = NULL;
	follow = 0;
	if (mode == 0) { // regular files
		static const char *sets[][5] = {{"su", "sg", "ex", "mh"}, {"ex", "mh", "fi", "no"}, {"su", "mh", "fi", "*t"}, {"sg", "ex", "*xt", "*t"}, {"no", "di", "fi", "ex"}};
		for (int i = 0; i < 4; ++i) {
			const char *k = sets[set_][i];
			if (k[0] != '*') { vary(k, i); continue; }
			int c = sym_choice(k, 2);
			if (!c) continue;
			static const char *ev[] = {"81", "82"};
			set(k, ev[i & 1], NULL);
			exts[next].ext = k + 1;
			exts[next++].val = ev[i & 1];
		}
		f = mfs_mkfile(d, name, "");
		f->mode = S_IFREG | (sym_u32("mode") & 07777);
		f->nlink = sym_u32("nlink");
		color = reg(f, name);
	} else if (mode == 1) { // directories
		static const char *sets[][5] = {{"di", "tw", "ow", "st"}, {"no", "di", "ow", "st"}};
		for (int i = 0; i < 4; ++i) vary(sets[set_][i], i);
		strcpy(name, "e");
		f = mfs_mkdir(d, name);
		f->mode = S_IFDIR | (sym_u32("mode") & 07777) | 0700;
		color = dir(f);
	} else if (mode == 2) { // links
		vary("or", 1);
		vary("mi", 2);
		int ln = sym_choice("ln", 4);
		if (ln == 1) set("ln", "91", "91");
		if (ln == 2) set("ln", "0", NULL);
		if (ln == 3) set("ln", "target", "");
		vary("no", 4);
		follow = sym_choice("follow", 2);
		static const char *targets[] = {"nowhere", "t", "../d/t", "u", "l", "p"};
		strcpy(name, "l");
		int k = sym_choice("target", 6);
		sym_assume(!(follow && k == 4)); // an error
		f = mfs_symlink(d, name, targets[k]);
		if (k == 1 || k == 2) colored = mfs_mkfile(d, "t", ""), colored->mode = S_IFREG | (sym_u32("mode") & 0111);
		if (k == 3) colored = mfs_mkdir(d, "u"), colored->mode = S_IFDIR | 0700 | (sym_u32("mode") & 01002);
		if (k == 5) colored = mfs_new(S_IFIFO | 0600), mfs_add(d, "p", colored);
		bool broken = k == 0 || k == 4;
		if ((ln == 3 || follow) && !broken) color = k == 3 ? dir(colored) : k == 5 ? val("pi") : reg(colored, name);
		else if (ln == 3 && k == 4) color = val("mi") ? val("mi") : val("or"); // a loop cannot be followed
		else if (broken && val("or")) color = val("or");
		else color = normal(val("ln"));
	} else if (mode == 3) { // special files
		static const mode_t types[] = {S_IFBLK, S_IFCHR, S_IFIFO, S_IFSOCK};
		static const char *ks[] = {"bd", "cd", "pi", "so"};
		int k = sym_choice("type", 4);
		for (int i = 0; i < 4; ++i) vary(ks[i], i);
		strcpy(name, "s");
		f = mfs_new(types[k] | (sym_u32("mode") & 07777));
		mfs_add(d, name, f);
		color = other(f->mode);
	} else if (mode == 4) { // extensions
		static const char *pool[] = {"t", "xt", "txt", ".t", "x", "T", "xT", "Xt"};
		static const char *cpool[] = {"t", "T", "xt", "xT"};
		static const char *vals[] = {"81", "82", "83", "84", "85"};
		int n = sym_param("n", 2), np = sym_param("pool", 8);
		for (int i = 0; i < n; ++i) {
			int xi = i == 0 && sym_param("first", -1) >= 0 ? (int)sym_param("first", 0) : i == n - 1 && sym_param("last", -1) >= 0 ? (int)sym_param("last", 0) : sym_choice("ext", np);
			const char *x = sym_param("same", 0) ? cpool[xi] : pool[xi];
			const char *v = vals[sym_param("same", 0) ? sym_choice("val", 2) : i];
			bool clash = false;
			for (int o = 0; o < next; ++o) { // overlapping spellings that differ in case are not specified
				size_t a = strlen(exts[o].ext), b = strlen(x), m = a < b ? a : b;
				bool eq = strcmp(exts[o].ext + a - m, x + b - m) == 0, feq = strcasecmp(exts[o].ext + a - m, x + b - m) == 0;
				if (feq && !eq && a != b) clash = true;
			}
			sym_assume(!clash);
			exts[next].ext = x;
			exts[next++].val = v;
			static char key[5][8];
			strcpy(key[i], "*");
			strcat(key[i], x);
			set(key[i], v, NULL);
		}
		int len = 1 + sym_choice("len", sym_param("len", 4));
		static const char al[] = "tx.T";
		for (int i = 0; i < len; ++i) name[i] = al[sym_choice("c", 4)];
		name[len] = 0;
		sym_assume(strcmp(name, ".") != 0 && strcmp(name, "..") != 0);
		f = mfs_mkfile(d, name, "");
		color = reg(f, name);
	}
	if (mode == 5) { // every directive and -ls: the text does not depend on the colours
		static const char *fmts[] = {"%p|%P|%f|%h|%l|%H\\n", "%f %l\\n", "%d%p\\n"};
		strcpy(name, "f");
		if (sym_choice("slash", 2)) set("lc", "\\e[1;", NULL); // a different prefix is still an escape sequence
		int k = sym_choice("kind", 6);
		if (k == 0) f = mfs_mkfile(d, name, "");
		if (k == 1) { f = mfs_mkdir(d, name); mfs_mkfile(f, "x", ""); }
		if (k >= 2) { static const char *tg[] = {"nowhere", "../d", "/nowhere/x", "f/x/"}; f = mfs_symlink(d, name, tg[k - 2]); }
		f->mode |= sym_u32("mode") & (set_ == 3 ? 01011 : 07777);
		vary("or", 1);
		vary("mi", 2);
		vary("di", 3);
		int a = sym_param("set", 0);
		char plain[512];
		int r1 = a < 3 ? RUN("-nocolor", "-j1", "d", "-printf", fmts[a]) : RUN("-nocolor", "-j1", "d", a == 3 ? "-ls" : a == 4 ? "-print" : "-print0");
		size_t n1 = mio_out.len;
		memcpy(plain, mio_out.buf, n1);
		mio_reset(&mio_out);
		mio_reset(&mio_err);
		int r2 = a < 3 ? RUN("-color", "-j1", "d", "-printf", fmts[a]) : RUN("-color", "-j1", "d", a == 3 ? "-ls" : a == 4 ? "-print" : "-print0");
		sym_note(lsc);
		notes();
		split();
		SYM_ASSERT(r1 == 0 && r2 == 0 && mio_err.len == 0, "no error");
		SYM_ASSERT(nt == n1 && memcmp(text, plain, n1) == 0, "without its escape sequences, the coloured output is the plain output");
		sym_cover("done");
		no_leaks();
		return;
	}
	if (mode == 6) { // escapes in a value
		static const char al[] = "\\^[e0719xf_?:a";
		static char v[8], bytes[16];
		int len = 1 + sym_choice("len", sym_param("len", 3));
		for (int i = 0; i < len; ++i) v[i] = al[sym_choice("c", 14)];
		strcpy(lsc, "*t=");
		strcat(lsc, v);
		strcat(lsc, ":di=95");
		// read it
		size_t nb = 0;
		const char *p = lsc + 3;
		bool bad = false;
		for (; *p && *p != ':'; ) {
			int c;
			if (*p == '^') {
				if (!p[1]) { bad = true; break; }
				c = p[1] == '?' ? 127 : p[1] & 31;
				p += 2;
			} else if (*p == '\\') {
				++p;
				if (!*p) { bad = true; break; }
				if (*p >= '0' && *p <= '7') { c = 0; while (*p >= '0' && *p <= '7') c = (c * 8 + *p++ - '0') & 255; }
				else if (*p == 'x') { c = 0; for (++p; (*p >= '0' && *p <= '9') || (*p >= 'a' && *p <= 'f'); ++p) c = (c * 16 + (*p <= '9' ? *p - '0' : *p - 'a' + 10)) & 255; }
				else { const char *from = "efa_?", *to = "\033\f\a \177", *h = strchr(from, *p); c = h ? to[h - from] : *p; ++p; }
			} else c = *p++;
			bytes[nb++] = c;
		}
		const char *di = *p ? "95" : "01;34";
		if (*p && strncmp(p, ":di=95", 6) != 0) di = strncmp(p, "::", 2) == 0 ? "01;34" : strncmp(p + 1, "di", 2) == 0 ? "95" : NULL;
		f = mfs_mkfile(d, name, "");
		int ret = run("-name", name);
		sym_note(lsc);
		notes();
		if (bad) { SYM_ASSERT(ret != 0 && mio_out.len == 0 && mio_err.len > 0, "a malformed value is an error"); sym_cover("bad"); return; }
		if (!di) return; // something other than a key follows
		char want[64];
		size_t n = 0;
		memcpy(want, "\033[", 2); n = 2;
		memcpy(want + n, di, strlen(di)); n += strlen(di);
		memcpy(want + n, "md/\033[0m", 7); n += 7;
		memcpy(want + n, "\033[", 2); n += 2;
		memcpy(want + n, bytes, nb); n += nb;
		memcpy(want + n, "mf.txt\033[0m\n", 11); n += 11;
		const char *plain = nb ? NULL : "";
		if (!plain) SYM_ASSERT(mio_out.len == n && memcmp(mio_out.buf, want, n) == 0, "the value is what the setting spells");
		SYM_ASSERT(ret == 0 && mio_err.len == 0, "no error");
		sym_cover("done");
		return;
	}
	int ret = run("-name", name);
	sym_note(lsc);
	sym_note(name);
	notes();
	SYM_ASSERT(ret == 0 && mio_err.len == 0, "no error");
	split();
	part("d/", 2, val("di"));
	part(name, strlen(name), color);
	part("\n", 1, NULL);
	SYM_ASSERT(at == nt, "nothing else is printed");
	if (color) sym_cover("colored"); else sym_cover("plain");
	sym_cover("done");
	no_leaks();
}
