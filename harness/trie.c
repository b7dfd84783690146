// C23: the trie behaves as a map for every (prefix-free) key set.
#include "sym.h"
#include "trie.h"
#include <string.h>
#include <stdlib.h>

#ifndef KEYSZ
#define KEYSZ 64
#endif
#define MAXK 17
static unsigned char keys[MAXK][KEYSZ];
static size_t lens[MAXK];
static struct trie_leaf *leaf[MAXK];
static bool live[MAXK];
static int N, L, MODE;
static struct trie trie;
static const unsigned char alpha[] = {0x61, 0x62, 0x71, 0x16};
static int A;

static bool same(int i, int j) { return lens[i] == lens[j] && memcmp(keys[i], keys[j], lens[i]) == 0; }

static void check_all(void) {
	for (int i = 0; i < N; ++i) {
		struct trie_leaf *f = trie_find_mem(&trie, keys[i], lens[i]);
		if (live[i]) {
			SYM_ASSERT(f == leaf[i], "an inserted key must be found");
			SYM_ASSERT(f->length == lens[i] && memcmp(f->key, keys[i], lens[i]) == 0, "leaf holds its key");
			SYM_ASSERT(f->value == &keys[i], "value must be preserved");
			SYM_ASSERT(trie_get_mem(&trie, keys[i], lens[i]) == &keys[i], "get returns the value");
			if (MODE) {
				SYM_ASSERT(trie_find_str(&trie, (char *)keys[i]) == f, "string lookup agrees");
				SYM_ASSERT(trie_get_str(&trie, (char *)keys[i]) == &keys[i], "string get agrees");
			}
		} else {
			SYM_ASSERT(!f, "an absent key must not be found");
		}
	}
	// insertion-order list
	struct trie_leaf *prev = NULL;
	int n = 0, want = 0;
	for (int i = 0; i < N; ++i) want += live[i];
	for_trie (l, &trie) {
		SYM_ASSERT(l->prev == prev, "list links");
		prev = l;
		++n;
	}
	SYM_ASSERT(trie.tail == prev && n == want, "iteration visits every key once");
}

static void probe(const unsigned char *p, size_t pl) {
	struct trie_leaf *f = trie_find_mem(&trie, p, pl), *want = NULL;
	for (int i = 0; i < N; ++i) if (live[i] && lens[i] == pl && memcmp(keys[i], p, pl) == 0) want = leaf[i];
	SYM_ASSERT(f == want, "lookup finds exactly the stored keys");
	if (!MODE) return;
	struct trie_leaf *q = trie_find_prefix(&trie, (char *)p), *wq = NULL;
	size_t best = 0;
	for (int i = 0; i < N; ++i)
		if (live[i] && lens[i] <= pl && memcmp(keys[i], p, lens[i] - 1) == 0 && lens[i] > best) { best = lens[i]; wq = leaf[i]; }
	SYM_ASSERT(q == wq, "longest-prefix lookup");
	struct trie_leaf *r = trie_find_postfix(&trie, (char *)p);
	bool any = false;
	for (int i = 0; i < N; ++i) if (live[i] && lens[i] >= pl && memcmp(keys[i], p, pl - 1) == 0) any = true;
	SYM_ASSERT((r != NULL) == any, "postfix lookup finds a leaf iff one exists");
	if (r) SYM_ASSERT(r->length >= pl && memcmp(r->key, p, pl - 1) == 0, "postfix leaf starts with the key");
}
// every string of up to one character more than the keys, and shorter prefixes
static void probe_all(int fixed) {
	unsigned char p[KEYSZ];
	memset(p, 'x', sizeof(p));
	for (int l = 0; l < fixed; l += fixed / 5 + 1) { p[l] = 0; probe(p, l + 1); p[l] = 'x'; }
	int max = L - fixed + 1, n = 1;
	for (int l = 0; l <= max; ++l, n *= A + 1) {
		for (int v = 0; v < n; ++v) {
			int w = v;
			for (int j = 0; j < l; ++j, w /= A + 1) p[fixed + j] = alpha[w % (A + 1)];
			p[fixed + l] = 0;
			probe(p, fixed + l + 1);
		}
	}
}

void harness(void) {
	N = sym_param("n", 3);
	A = sym_param("alpha", 3);
	L = sym_param("len", 2);
	MODE = sym_param("mode", 0);      // 0: fixed-length memory keys, 1: strings
	int fixed = sym_param("fixed", 0); // leading bytes shared and concrete
	for (int i = 0; i < N; ++i) {
		if (MODE == 0) {
			memset(keys[i], 'x', L);
			sym_mem(keys[i] + fixed, L - fixed, "key");
			lens[i] = L;
		} else if (MODE == 3) {
			// one node with many children, filled in some order
			static const int starts[] = {0, 6, 15}, strides[] = {1, 7, 15};
			static int start, stride, high;
			if (i == 0) { start = starts[sym_choice("start", 3)]; stride = strides[sym_choice("stride", 3)]; high = sym_choice("high", 2); }
			int d = (start + i * stride) % 16;
			memset(keys[i], 'x', fixed);
			keys[i][fixed] = high ? d << 4 | 1 : 0x60 | d;
			lens[i] = fixed + 2;
		} else if (MODE == 2) {
			// strings over a small alphabet whose bytes share either nibble
			int len = sym_choice("strlen", L - fixed + 1);
			memset(keys[i], 'x', fixed);
			for (int j = 0; j < len; ++j) keys[i][fixed + j] = alpha[sym_choice("char", A)];
			lens[i] = fixed + len + 1;
		} else {
			int len = sym_choice("strlen", L - fixed + 1);
			memset(keys[i], 'x', fixed);
			sym_mem(keys[i] + fixed, len, "key");
			for (int j = 0; j < len; ++j) sym_assume(keys[i][fixed + j] != 0);
			lens[i] = fixed + len + 1;
		}
	}
	trie_init(&trie);
	for (int i = 0; i < N; ++i) {
		int d = -1;
		for (int j = 0; j < i; ++j) if (same(i, j)) { d = j; break; }
		struct trie_leaf *l = MODE ? trie_insert_str(&trie, (char *)keys[i]) : trie_insert_mem(&trie, keys[i], lens[i]);
		SYM_ASSERT(l != NULL, "insert succeeds");
		if (d >= 0) {
			SYM_ASSERT(l == leaf[d], "inserting an existing key returns its leaf");
			SYM_ASSERT(l->value == &keys[d], "inserting an existing key keeps its value");
			// treat as removed from the model
			sym_cover("duplicate");
			--i; --N;
			memmove(keys[i + 1], keys[i + 2 <= N ? i + 2 : i + 1], 0);
			for (int k = i + 1; k < N; ++k) { memcpy(keys[k], keys[k + 1], KEYSZ); lens[k] = lens[k + 1]; }
			continue;
		}
		SYM_ASSERT(l->value == NULL, "fresh leaf has no value");
		l->value = &keys[i];
		leaf[i] = l;
		live[i] = true;
	}
	// probe: an arbitrary key
	if (MODE >= 2) {
		probe_all(fixed);
	} else if (sym_param("probe", 1)) {
		unsigned char p[KEYSZ];
		size_t pl;
		if (MODE == 0) { memset(p, 'x', L); sym_mem(p + fixed, L - fixed, "probe"); pl = L; }
		else { pl = sym_choice("probelen", L - fixed + 1); memset(p, 'x', fixed); sym_mem(p + fixed, pl, "probe"); for (size_t j = 0; j < pl; ++j) sym_assume(p[fixed + j] != 0); pl += fixed; p[pl++] = 0; }
		probe(p, pl);
	}
	check_all();
	sym_cover("inserted");
	// removal in an arbitrary order
	int rm = sym_param("remove", 1);
	for (int k = 0; k < rm && N > 0; ++k) {
		static int from, step;
		if (MODE == 3 && k == 0) { from = sym_choice("from", 3) * 7; step = 1 + 2 * sym_choice("step", 4); }
		int i = MODE == 3 ? (from + k * step) % N : sym_choice("remove", N);
		if (!live[i]) continue;
		trie_remove(&trie, leaf[i]);
		live[i] = false;
		check_all();
		if (MODE >= 2) probe_all(fixed);
		sym_cover("removed");
	}
	if (MODE >= 2 && rm) { // removed keys can come back
		for (int i = 0; i < N; ++i) {
			if (live[i]) continue;
			leaf[i] = trie_insert_str(&trie, (char *)keys[i]);
			SYM_ASSERT(leaf[i] && !leaf[i]->value, "a removed key can be inserted again");
			leaf[i]->value = &keys[i];
			live[i] = true;
		}
		probe_all(fixed);
		check_all();
	}
	trie_clear(&trie);
	for (int i = 0; i < N; ++i) live[i] = false;
	check_all();
	trie_destroy(&trie);
	sym_cover("done");
}
