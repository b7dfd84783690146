From 8041b72188f5c35ebc06f9a8ceccf2f7ad20808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:55 +0000
Subject: [PATCH 01/18] fix: avoid overflow when rounding up sizes near the
 maximum in -size and -sparse

---
 src/eval.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 0d1bf68..849e6a4 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -963,7 +963,7 @@ bool eval_size(const struct bfs_expr *expr, struct bfs_eval *state) {
 	};
 
 	off_t scale = scales[expr->size_unit];
-	off_t size = (statbuf->size + scale - 1) / scale; // Round up
+	off_t size = statbuf->size / scale + (statbuf->size % scale != 0); // Round up
 	return bfs_expr_cmp(expr, size);
 }
 
@@ -976,7 +976,7 @@ bool eval_sparse(const struct bfs_expr *expr, struct bfs_eval *state) {
 		return false;
 	}
 
-	blkcnt_t expected = (statbuf->size + BFS_STAT_BLKSIZE - 1) / BFS_STAT_BLKSIZE;
+	blkcnt_t expected = statbuf->size / BFS_STAT_BLKSIZE + (statbuf->size % BFS_STAT_BLKSIZE != 0);
 	return statbuf->blocks < expected;
 }
 
-- 
2.43.0


From 8bf3f6aaa8e1072e44bab0737eb39bc2300517e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:59 +0000
Subject: [PATCH 02/18] fix: don't deduce -nouser/-nogroup facts from a failed
 -uid/-gid test

---
 src/opt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 49e8873..e9edb06 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1655,7 +1655,7 @@ static struct bfs_expr *data_flow_gid(struct bfs_opt *opt, struct bfs_expr *expr
 		gid_t gid = range->min;
 		bool nogroup = !bfs_getgrgid(opt->ctx->groups, gid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOGROUP_PRED, nogroup);
+			constrain_pred(&opt->after_true.preds[NOGROUP_PRED], nogroup);
 		}
 	}
 
@@ -1729,7 +1729,7 @@ static struct bfs_expr *data_flow_uid(struct bfs_opt *opt, struct bfs_expr *expr
 		uid_t uid = range->min;
 		bool nouser = !bfs_getpwuid(opt->ctx->users, uid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOUSER_PRED, nouser);
+			constrain_pred(&opt->after_true.preds[NOUSER_PRED], nouser);
 		}
 	}
 
-- 
2.43.0


From 3ea4dc9785f73fd82483bbb2c21a0337b31e21c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:59 +0000
Subject: [PATCH 03/18] fix: reset the data flow state when an ignored
 expression is replaced

---
 src/opt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/opt.c b/src/opt.c
index e9edb06..6a23d6e 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1841,10 +1841,16 @@ done:
 /** Data flow visitor function. */
 static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
 	if (opt->ignore_result) {
+		const struct bfs_expr *orig = expr;
 		expr = opt_ignore(opt, expr, false);
 		if (!expr) {
 			return NULL;
 		}
+		if (expr != orig) {
+			// Forget anything we learned from the replaced expression
+			opt->after_true = opt->before;
+			opt->after_false = opt->before;
+		}
 	}
 
 	if (df_is_bottom(&opt->before)) {
-- 
2.43.0


From 031a7afa1a43557c18bd829a6e3d7c1f046684d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:59 +0000
Subject: [PATCH 04/18] fix: don't mix different -size units in the data flow
 analysis

---
 src/opt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opt.c b/src/opt.c
index 6a23d6e..e955729 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1898,6 +1898,10 @@ static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *ex
 	};
 
 	for (size_t i = 0; i < countof(ranges); ++i) {
+		if (expr->eval_fn == eval_size && expr->size_unit != BFS_BYTES) {
+			// SIZE_RANGE is in bytes, so other units aren't comparable
+			break;
+		}
 		if (ranges[i].eval_fn == expr->eval_fn) {
 			data_flow_icmp(opt, expr, ranges[i].range);
 			break;
-- 
2.43.0


From 422de9b55812e8b806d0685d90dfefb1a936a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:59 +0000
Subject: [PATCH 05/18] fix: don't deduce too much about the inode number from
 -samefile

---
 src/opt.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index e955729..d312596 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1694,11 +1694,10 @@ static struct bfs_expr *data_flow_lname(struct bfs_opt *opt, struct bfs_expr *ex
 
 /** Transfer function for -samefile. */
 static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
-	struct df_range *true_range = &opt->after_true.ranges[INUM_RANGE];
-	constrain_range(true_range, expr->ino);
-
-	struct df_range *false_range = &opt->after_false.ranges[INUM_RANGE];
-	range_remove(false_range, expr->ino);
+	// If the test fails, the inode number might still match on another device
+	if (expr->ino <= LLONG_MAX) {
+		constrain_range(&opt->after_true.ranges[INUM_RANGE], expr->ino);
+	}
 
 	return expr;
 }
-- 
2.43.0


From a9738dc3d0a9c485af8962810763fa4a24636c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:11 +0000
Subject: [PATCH 06/18] fix: keep depth-first order for -S dfs without
 background threads

---
 src/bftw.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bftw.c b/src/bftw.c
index f822456..edc0985 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -1502,6 +1502,11 @@ static bool bftw_should_ioq_stat(struct bftw_state *state, struct bftw_file *fil
 
 /** Call stat() on files that need it. */
 static void bftw_stat_files(struct bftw_state *state) {
+	if (!state->ioq) {
+		// Leave the files on the waiting list to preserve their order
+		return;
+	}
+
 	while (true) {
 		struct bftw_file *file = bftw_queue_waiting(&state->fileq);
 		if (!file) {
-- 
2.43.0


From 324eed14d13836c76b1072f17cc25ea46ae9efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:25 +0000
Subject: [PATCH 07/18] fix: don't lose actions after a comma whose left side
 ends with an always-true test

---
 src/opt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index d312596..1c41418 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1831,8 +1831,9 @@ static struct bfs_expr *opt_ignore(struct bfs_opt *opt, struct bfs_expr *expr, b
 
 done:
 	if (!delete && expr->pure) {
-		// If we're not deleting the expression entirely, replace it with -false
-		expr = opt_const(opt, false);
+		// If we're not deleting the expression entirely, replace it with a constant.
+		// If it's always true, use -true, since its parents may be always true too.
+		expr = opt_const(opt, expr->always_true);
 	}
 	return expr;
 }
-- 
2.43.0


From d6f635cfac700111aacafa131cbbc290bbc2087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:48 +0000
Subject: [PATCH 08/18] fix: don't lose files when -exec ... {} + recovers from
 E2BIG

---
 src/exec.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 45c9f1d..aa8367f 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -532,14 +532,14 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 		if (ret == 0) {
 			bfs_exec_update_min(execbuf);
 			break;
-		} else if (error != E2BIG) {
+		} else if (error != E2BIG || execbuf->argc == execbuf->tmpl_argc) {
 			break;
 		}
 
 		// Try to recover from E2BIG by trying fewer and fewer arguments
 		// until they fit
 		size_t new_max = bfs_exec_update_max(execbuf);
-		while (execbuf->arg_size > new_max) {
+		while (execbuf->arg_size > new_max && execbuf->argc > execbuf->tmpl_argc) {
 			execbuf->argv[execbuf->argc] = execbuf->argv[execbuf->argc - 1];
 			execbuf->arg_size -= bfs_exec_arg_size(execbuf->argv[execbuf->argc]);
 			--execbuf->argc;
@@ -557,7 +557,7 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 		// If we recovered from E2BIG, there are unused arguments at the
 		// end of the list
 		for (size_t i = new_argc + 1; i <= orig_argc; ++i) {
-			if (error == 0) {
+			if (error == 0 || error == E2BIG) {
 				execbuf->argv[execbuf->argc] = execbuf->argv[i];
 				execbuf->arg_size += bfs_exec_arg_size(execbuf->argv[execbuf->argc]);
 				++execbuf->argc;
@@ -571,6 +571,21 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 	return ret;
 }
 
+/** Execute the pending command until no arguments remain. */
+static int bfs_exec_flush_all(struct bfs_exec *execbuf) {
+	int ret = 0, error = 0;
+
+	while (bfs_exec_args_remain(execbuf)) {
+		if (bfs_exec_flush(execbuf) != 0) {
+			ret = -1;
+			error = errno ? errno : error;
+		}
+	}
+
+	errno = error;
+	return ret;
+}
+
 /** Check if we need to flush the execbuf because we're changing directories. */
 static bool bfs_exec_changed_dirs(const struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	if (execbuf->flags & BFS_EXEC_CHDIR) {
@@ -627,9 +642,7 @@ static int bfs_exec_multi(struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	}
 
 	if (bfs_exec_changed_dirs(execbuf, ftwbuf)) {
-		while (bfs_exec_args_remain(execbuf)) {
-			ret |= bfs_exec_flush(execbuf);
-		}
+		ret |= bfs_exec_flush_all(execbuf);
 		bfs_exec_closewd(execbuf, ftwbuf);
 	} else if (bfs_exec_would_overflow(execbuf, arg)) {
 		ret |= bfs_exec_flush(execbuf);
@@ -673,9 +686,7 @@ int bfs_exec(struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 int bfs_exec_finish(struct bfs_exec *execbuf) {
 	if (execbuf->flags & BFS_EXEC_MULTI) {
 		bfs_exec_debug(execbuf, "Finishing execution, executing buffered command\n");
-		while (bfs_exec_args_remain(execbuf)) {
-			execbuf->ret |= bfs_exec_flush(execbuf);
-		}
+		execbuf->ret |= bfs_exec_flush_all(execbuf);
 		if (execbuf->ret != 0) {
 			bfs_exec_debug(execbuf, "One or more executions of '%s' failed\n", execbuf->argv[0]);
 		}
-- 
2.43.0


From adb84434adfdc825f2dd85b9b7f569977479beed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:48 +0000
Subject: [PATCH 09/18] fix: run -execdir ... + in the right directory for
 roots with trailing slashes

With -depth, the root in 'bfs r/a/ -depth -execdir echo {} +' was batched with
its own children, because its path starts with their directory.
---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index aa8367f..fc7d024 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -589,7 +589,7 @@ static int bfs_exec_flush_all(struct bfs_exec *execbuf) {
 /** Check if we need to flush the execbuf because we're changing directories. */
 static bool bfs_exec_changed_dirs(const struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	if (execbuf->flags & BFS_EXEC_CHDIR) {
-		if (ftwbuf->nameoff > execbuf->wd_len
+		if (ftwbuf->nameoff != execbuf->wd_len
 		    || (execbuf->wd_path && strncmp(ftwbuf->path, execbuf->wd_path, execbuf->wd_len) != 0)) {
 			bfs_exec_debug(execbuf, "Changed directories, executing buffered command\n");
 			return true;
-- 
2.43.0


From fc103d0d49825719c8a6b4f77eba09ad2014b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:48 +0000
Subject: [PATCH 10/18] fix: don't crash if -execdir ... + can't open the same
 directory twice

---
 src/exec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index fc7d024..1eb042a 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -650,6 +650,9 @@ static int bfs_exec_multi(struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 
 	if ((execbuf->flags & BFS_EXEC_CHDIR) && execbuf->wd_fd < 0) {
 		if (bfs_exec_openwd(execbuf, ftwbuf) != 0) {
+			int error = errno;
+			bfs_exec_closewd(execbuf, ftwbuf);
+			errno = error;
 			ret = -1;
 			goto out_arg;
 		}
-- 
2.43.0


From d0a3a6880ff9d99e57c0bcf29b0ad2709a512c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:48 +0000
Subject: [PATCH 11/18] fix: resolve relative commands from the right directory
 for -execdir

'bfs -execdir {} \;' and 'bfs -execdir ./cmd \;' looked for the command in the
original working directory first, and failed if it wasn't there.
---
 src/xspawn.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/xspawn.c b/src/xspawn.c
index 3fa4e60..aad9f53 100644
--- a/src/xspawn.c
+++ b/src/xspawn.c
@@ -401,21 +401,22 @@ static bool bfs_resolve_relative(const struct bfs_resolver *res) {
 	return false;
 }
 
-/** Check if we can resolve the executable before file actions. */
-static bool bfs_can_resolve_early(const struct bfs_resolver *res, const struct bfs_spawn *ctx) {
-	if (!bfs_resolve_relative(res)) {
-		return true;
-	}
-
+/** Check if any file actions change the working directory. */
+static bool bfs_spawn_changes_dir(const struct bfs_spawn *ctx) {
 	if (ctx) {
 		for_slist (const struct bfs_spawn_action, action, ctx) {
 			if (action->op == BFS_SPAWN_FCHDIR) {
-				return false;
+				return true;
 			}
 		}
 	}
 
-	return true;
+	return false;
+}
+
+/** Check if we can resolve the executable before file actions. */
+static bool bfs_can_resolve_early(const struct bfs_resolver *res, const struct bfs_spawn *ctx) {
+	return !bfs_resolve_relative(res) || !bfs_spawn_changes_dir(ctx);
 }
 
 /** Get the required path resolution buffer size. */
@@ -442,6 +443,12 @@ static int bfs_resolve_early(struct bfs_resolver *res, const char *exe, const st
 	};
 
 	if (bfs_can_skip_resolve(res, ctx)) {
+		if (exe[0] != '/' && bfs_spawn_changes_dir(ctx)) {
+			// A relative path will be resolved from the new working directory
+			res->done = true;
+			return 0;
+		}
+
 		// Do this check eagerly, even though posix_spawn()/execv() also
 		// would, because:
 		//
-- 
2.43.0


From c486d38c5e66dc41f63f1f5525402919e712fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:39 +0000
Subject: [PATCH 12/18] fix: report running out of memory while parsing a
 -printf directive

bfs_printf_parse() failed without any message when dstralloc() failed, so
bfs exited with a nonzero status but no explanation.
---
 src/printf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/printf.c b/src/printf.c
index 30ec201..b6d8685 100644
--- a/src/printf.c
+++ b/src/printf.c
@@ -688,6 +688,7 @@ int bfs_printf_parse(const struct bfs_ctx *ctx, struct bfs_expr *expr, const cha
 				.str = dstralloc(2),
 			};
 			if (!fmt.str) {
+				bfs_perror(ctx, "dstralloc()");
 				goto fmt_error;
 			}
 			if (dstrapp(&fmt.str, c) != 0) {
-- 
2.43.0


From 98f9451511df2be18089d47a73bace12e807f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:36 +0000
Subject: [PATCH 13/18] fix: report errors that only occur in later passes of
 -S ids/eds

Iterative deepening assumed that an error for a shallow directory had
already been reported by an earlier pass.  If the directory could still be
opened back then, its remaining contents were silently skipped with a
successful exit status.  Errors reached by several passes were also
reported more than once.
---
 src/bftw.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/bftw.c b/src/bftw.c
index edc0985..e2e7637 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2176,6 +2176,8 @@ struct bftw_ids_state {
 	size_t max_depth;
 	/** The set of pruned paths. */
 	struct trie pruned;
+	/** The set of paths whose errors have been reported. */
+	struct trie failed;
 	/** Whether the bottom has been found. */
 	bool bottom;
 };
@@ -2190,11 +2192,15 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 	}
 
 	if (ftwbuf->type == BFS_ERROR) {
-		if (ftwbuf->depth + 1 >= state->min_depth) {
-			return state->delegate(ftwbuf, state->ptr);
-		} else {
+		// Report each error once, even if an earlier pass succeeded
+		if (trie_find_str(&state->failed, ftwbuf->path)) {
 			return BFTW_PRUNE;
 		}
+		if (!trie_insert_str(&state->failed, ftwbuf->path)) {
+			state->nested.error = errno;
+			return BFTW_STOP;
+		}
+		return state->delegate(ftwbuf, state->ptr);
 	}
 
 	if (ftwbuf->depth < state->min_depth) {
@@ -2247,6 +2253,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 	state->min_depth = 0;
 	state->max_depth = 1;
 	trie_init(&state->pruned);
+	trie_init(&state->failed);
 	state->bottom = false;
 
 	struct bftw_args ids_args = *args;
@@ -2258,6 +2265,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 
 /** Finish an iterative deepening search. */
 static int bftw_ids_destroy(struct bftw_ids_state *state) {
+	trie_destroy(&state->failed);
 	trie_destroy(&state->pruned);
 	return bftw_state_destroy(&state->nested);
 }
-- 
2.43.0


From dcd019f8ad4dd1d7500d20efc13e7ff1940bc349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:26 +0000
Subject: [PATCH 14/18] fix: keep earlier signal hooks when the last one is
 removed

rcu_list_remove() reset the tail to the list head when removing the last
node, so the next rcu_list_append() dropped every earlier node.
---
 src/sighook.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sighook.c b/src/sighook.c
index a87bed5..cfe9bc9 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -290,7 +290,7 @@ static void rcu_list_remove(struct rcu_list *list, struct rcu_node *node) {
 	if (next) {
 		next->self = node->self;
 	} else {
-		list->tail = &list->head;
+		list->tail = node->self;
 	}
 	rcu_destroy(&node->next);
 }
-- 
2.43.0


From 858a5b34758cfdb38b225ae8e25c9298e4453a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:27 +0000
Subject: [PATCH 15/18] fix: don't treat root paths like ./ as hidden

---
 src/eval.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 849e6a4..2bbc435 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -562,7 +562,14 @@ bool eval_hidden(const struct bfs_expr *expr, struct bfs_eval *state) {
 	//
 	//     $ bfs . -nohidden
 	//     $ bfs .. -nohidden
-	return name[0] == '.' && strcmp(name, ".") != 0 && strcmp(name, "..") != 0;
+	//
+	// The root path may have trailing slashes, which are not part of the name.
+	size_t len = strcspn(name, "/");
+	if (len <= 2 && strncmp(name, "..", len) == 0) {
+		return false;
+	}
+
+	return name[0] == '.';
 }
 
 /**
-- 
2.43.0


From 6dcba8ee6ada1aa1fa66af5931d3377ca7a39b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:35 +0000
Subject: [PATCH 16/18] fix: apply the umask to every action of a symbolic mode

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 9c39d6b..844ba86 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1989,7 +1989,7 @@ static int parse_mode(const struct bfs_parser *parser, const char *mode, struct
 			if (who == 0) {
 				who = 0777;
 				mask = who & ~umask;
-			} else {
+			} else if (state == MODE_ACTION) {
 				mask = who;
 			}
 
-- 
2.43.0


From 46c220ac59d07443c752a66ce451b94484eb5571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:35 +0000
Subject: [PATCH 17/18] fix: reject -?time arguments that overflow

---
 src/parse.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 844ba86..60a0bea 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -992,18 +992,19 @@ static struct bfs_expr *parse_time(struct bfs_parser *parser, int field, int arg
 	expr->num = 0;
 
 	while (true) {
+		unsigned long long unit = 1;
 		switch (*tail) {
 		case 'w':
-			time *= 7;
+			unit *= 7;
 			_fallthrough;
 		case 'd':
-			time *= 24;
+			unit *= 24;
 			_fallthrough;
 		case 'h':
-			time *= 60;
+			unit *= 60;
 			_fallthrough;
 		case 'm':
-			time *= 60;
+			unit *= 60;
 			_fallthrough;
 		case 's':
 			break;
@@ -1012,7 +1013,11 @@ static struct bfs_expr *parse_time(struct bfs_parser *parser, int field, int arg
 			return NULL;
 		}
 
-		expr->num += time;
+		if (time > (LLONG_MAX - expr->num) / unit) {
+			parse_expr_error(parser, expr, "${bld}%pq${rs} is too large.\n", expr->argv[1]);
+			return NULL;
+		}
+		expr->num += time * unit;
 
 		if (!*++tail) {
 			break;
-- 
2.43.0


From 60855b1850460e2b34e0029b722025c6c1430685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:59 +0000
Subject: [PATCH 18/18] fix: report errors reading -files0-from

---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index 60a0bea..5a1e503 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3565,6 +3565,7 @@ static int parse_files0_roots(struct bfs_parser *parser) {
 		char *path = xgetdelim(file, '\0');
 		if (!path) {
 			if (errno) {
+				parse_expr_error(parser, expr, "%s.\n", errstr());
 				goto fail;
 			} else {
 				break;
-- 
2.43.0

