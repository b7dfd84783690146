// Name, path, link-target patterns and regular expressions against independent
// matchers.
#include "common.h"
#include <stdio.h>

static bool icase;
static unsigned char lo(unsigned char c) { return icase && c >= 'A' && c <= 'Z' ? c + 32 : c; }
static unsigned char up(unsigned char c) { return icase && c >= 'a' && c <= 'z' ? c - 32 : c; }
// Tokenize the pattern, then fill a table of which prefixes match.
enum { LIT, ANY, STAR, SET };
struct tk { int k; unsigned char c; unsigned char set[32]; };
static void add(struct tk *t, int c) { t->set[c / 8] |= 1 << c % 8; }
static int tokenize(const char *p, struct tk *t) {
	int n = 0;
	for (; *p; ++n) {
		memset(&t[n], 0, sizeof(t[n]));
		if (*p == '?') { t[n].k = ANY; ++p; }
		else if (*p == '*') { t[n].k = STAR; ++p; }
		else if (*p == '\\') {
			if (!p[1]) return -1;
			t[n].k = LIT; t[n].c = p[1]; p += 2;
		} else if (*p == '[') {
			const char *q = p + 1;
			bool neg = *q == '!' || *q == '^', ok = false;
			if (neg) ++q;
			struct tk s;
			memset(&s, 0, sizeof(s));
			for (bool first = true; ; first = false) {
				if (!*q) break;
				if (*q == ']' && !first) { ok = true; ++q; break; }
				unsigned char a = *q++;
				if (a == '\\') { if (!*q) break; a = *q++; }
				unsigned char b = a;
				if (q[0] == '-' && q[1] && q[1] != ']') {
					b = q[1];
					q += 2;
					if (b == '\\') { if (!*q) break; b = *q++; }
				}
				for (int c = a; c <= b; ++c) add(&s, c);
			}
			if (ok) {
				t[n] = s;
				t[n].k = SET;
				t[n].c = neg;
				p = q;
			} else { t[n].k = LIT; t[n].c = '['; ++p; }
		} else { t[n].k = LIT; t[n].c = *p++; }
	}
	return n;
}
static bool in(const struct tk *t, unsigned char c) { return t->set[c / 8] >> c % 8 & 1; }
static bool one(const struct tk *t, unsigned char c) {
	switch (t->k) {
	case ANY: return true;
	case LIT: return lo(t->c) == lo(c);
	default: return (in(t, c) || in(t, lo(c)) || in(t, up(c))) != !!t->c;
	}
}
static bool glob(const char *p, const char *s) {
	struct tk t[16];
	int n = tokenize(p, t), len = strlen(s);
	if (n < 0) return false;
	bool can[2][140];
	memset(can, 0, sizeof(can));
	can[0][0] = true;
	for (int i = 0; i < n; ++i) {
		bool *a = can[i & 1], *b = can[~i & 1];
		if (t[i].k == STAR) {
			bool any = false;
			for (int j = 0; j <= len; ++j) b[j] = any |= a[j];
		} else {
			b[0] = false;
			for (int j = 0; j < len; ++j) b[j + 1] = a[j] & one(&t[i], s[j]);
		}
	}
	return can[n & 1][len];
}
static void bytes(char *p, int n, const char *alpha, const char *name) {
	for (int i = 0; i < n; ++i) {
		p[i] = sym_u8(name);
		bool ok = false;
		for (const char *q = alpha; *q; ++q) ok |= p[i] == *q;
		sym_assume(ok);
	}
	p[n] = 0;
}
static void verdict(int r, bool e) {
	sym_cover("done");
	notes();
	SYM_ASSERT(r == 0, "exit status 0 without errors");
	if (e) { SYM_ASSERT(out_is("match\n"), "a file whose name matches the pattern is selected"); sym_cover("match"); }
	else { SYM_ASSERT(mio_out.len == 0, "a file whose name does not match the pattern is not selected"); sym_cover("nomatch"); }
	no_leaks();
}

static void glob_mode(void) {
	static const char *tests[] = {"-name", "-iname", "-path", "-ipath", "-wholename", "-iwholename", "-lname", "-ilname"};
	int t = sym_param("test", 0);
	icase = t & 1;
	static char pat[32], name[160];
	static const char *pre[] = {"", "d", "*", "[", "a", "?", "\\", "d/", "[!"}, *post[] = {"", "*", "]", "b", "\\", "?", "-b]", "/f"};
	int np = sym_param("plen", 2), nn = sym_param("nlen", 2);
	strcpy(pat, pre[sym_param("pre", 0)]);
	static const char *alphas[] = {"ab*?[]\\-!^.AB", "ab*?\\A", "abd/*?\\.AZ", "ab?Z^"};
	bytes(pat + strlen(pat), np, alphas[sym_param("alpha", 0)], "pattern");
	strcat(pat, post[sym_param("post", 0)]);
	struct mnode *d = mfs_mkdir(mfs_cwd, "d"), *f;
	bytes(name, nn, sym_param("slash", 0) ? "ab/.A[" : "ab.AB[]*?\\-", "name");
	bool e;
	static char full[170];
	if (t < 6) {
		sym_assume(strcmp(name, ".") != 0 && strcmp(name, "..") != 0);
		f = mfs_mkfile(d, name, "");
		strcpy(full, "d/");
		strcat(full, name);
		e = glob(pat, t < 2 ? name : full);
	} else {
		// a link target; file systems may report any size for the link
		static const int pads[] = {0, 63, 64, 65, 125};
		int pad = sym_choice("padding", 5);
		static char target[160];
		for (int i = 0; i < pad; ++i) target[i] = 'a';
		strcpy(target + pad, name);
		f = mfs_symlink(d, "l", target);
		switch (sym_choice("size", 4)) {
		case 0: f->size = 0; break;
		case 1: f->size = strlen(target) - 1; break;
		case 2: f->size = strlen(target) + 9; break;
		}
		e = glob(pat, target);
	}
	sym_note("pattern"); sym_note(pat); sym_note("name"); sym_note(name);
	int r = RUN("-j1", "d", "-mindepth", "1", tests[t], pat, "-printf", "match\\n");
	verdict(r, e);
}
// starting points: trailing slashes are not part of the name
static void root_mode(void) {
	static const char *roots[] = {"d", "d/", "d//", "./d", ".", "./", "..", "/", "//", "/w/d/", "d/.", "d/.."};
	static const char *names[] = {"d", "d", "d", "d", ".", ".", "..", "/", "/", "d", ".", ".."};
	mfs_mkdir(mfs_cwd, "d");
	int k = sym_choice("root", 12);
	static char pat[8];
	bytes(pat, sym_param("plen", 2), "d./*?", "pattern");
	int path = sym_param("path", 0);
	bool e = glob(pat, path ? roots[k] : names[k]);
	sym_note("pattern"); sym_note(pat);
	int r = RUN("-j1", roots[k], path ? "-path" : "-name", pat, "-printf", "match\\n", "-quit", "-o", "-quit");
	verdict(r, e);
}

// ---------------------------------------------------------------- regular expressions
static bool ext;
static bool rmatch(const char *p, const char *pe, const char *s);
static bool rbranch(const char *p, const char *pe, const char *s) {
	if (p == pe) return *s == 0;
	const char *a = p;
	int len = *p == '\\' ? 2 : 1;
	const char *nx = p + len;
	char q = nx < pe ? *nx : 0;
	if (!(q == '*' || (ext && (q == '+' || q == '?')))) q = 0;
	if (q) ++nx;
	unsigned char want = len == 2 ? a[1] : a[0];
	bool dot = len == 1 && *a == '.';
	int min = q == '*' || q == '?' ? 0 : 1;
	bool many = q == '*' || q == '+';
	for (int k = 0; ; ++k) {
		if (k >= min && rbranch(nx, pe, s)) return true;
		if (!*s || (!many && k >= 1)) return false;
		if (!(dot || lo(want) == lo(*s))) return false;
		++s;
	}
}
static bool rmatch(const char *p, const char *pe, const char *s) {
	const char *b = p;
	for (const char *q = p; ; ++q) {
		if (q == pe || (ext && *q == '|')) {
			if (rbranch(b, q, s)) return true;
			if (q == pe) return false;
			b = q + 1;
		}
		if (*q == '\\') ++q;
	}
}
static void regex_mode(void) {
	ext = sym_param("ext", 0);
	icase = sym_param("icase", 0);
	static char pat[16], name[8];
	static const char *pre[] = {"", "d/", "d.", "d/a", "x|d/"};
	strcpy(pat, pre[sym_param("pre", 0)]);
	bytes(pat + strlen(pat), sym_param("plen", 2), ext ? "ab.*+?|A" : "ab.*A\\", "pattern");
	for (int i = 0; pat[i]; ++i) {
		bool q = pat[i] == '*' || (ext && (pat[i] == '+' || pat[i] == '?'));
		// leading, repeated and otherwise undefined operators are left out
		if (q) sym_assume(i > 0 && pat[i - 1] != '*' && pat[i - 1] != '+' && pat[i - 1] != '?' && pat[i - 1] != '|');
		if (pat[i] == '\\') { sym_assume(pat[i + 1] == '.' || pat[i + 1] == '*' || pat[i + 1] == '\\'); ++i; }
	}
	if (ext) sym_assume(pat[0] != '|' && pat[strlen(pat) - 1] != '|');
	for (int i = 1; ext && pat[i]; ++i) sym_assume(!(pat[i] == '|' && pat[i - 1] == '|'));
	struct mnode *d = mfs_mkdir(mfs_cwd, "d");
	bytes(name, sym_param("nlen", 2), "abA.*\\", "name");
	sym_assume(strcmp(name, ".") != 0 && strcmp(name, "..") != 0);
	mfs_mkfile(d, name, "");
	char full[16] = "d/";
	strcat(full, name);
	sym_note("pattern"); sym_note(pat); sym_note("path"); sym_note(full);
	bool e = rmatch(pat, pat + strlen(pat), full);
	const char *t = icase ? "-iregex" : "-regex";
	int how = sym_param("how", 0), r;
	if (!ext) r = how ? RUN("-j1", "d", "-mindepth", "1", "-regextype", "posix-basic", t, pat, "-printf", "match\\n") : RUN("-j1", "d", "-mindepth", "1", t, pat, "-printf", "match\\n");
	else r = how ? RUN("-j1", "d", "-mindepth", "1", "-regextype", "posix-extended", t, pat, "-printf", "match\\n") : RUN("-j1", "-E", "d", "-mindepth", "1", t, pat, "-printf", "match\\n");
	verdict(r, e);
}
void harness(void) {
	world();
	switch (sym_param("mode", 0)) {
	case 0: glob_mode(); break;
	case 1: root_mode(); break;
	case 2: regex_mode(); break;
	}
}
