TECH = "bounded symbolic execution of the LLVM IR of the current sources (QF_BV: bit-blasting + MiniSat, Z3 cross-check), counterexamples replayed natively"
N = "Within the stated bounds every path is explored and every assertion decided by the solver (the evidence lists the cases that were exhausted). Trusts clang's IR, the executor, the libc model and the operating-system model; counterexamples are confirmed by running the natively compiled code under the same model before they are reported."
PROPS = []
def P(id, title, statement, over, text, why, files, mech, na=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=m[0], where=m[1]) for m in mech]), na=na, note=note or N))

P("C01", "Every file below the roots is visited exactly once",
  "A search without pruning visits every file reachable below each starting path exactly once, under the path obtained by joining the starting path and the entry names, with the right depth and type. This holds for every search strategy, number of threads, completion order of background work, sorting mode and amount of type information the file system reports.",
  ["inputs", "schedules", "configurations"], "all directory trees, root spellings, strategies, thread counts and background completion orders",
  "The tests walk one fixed set of trees, on a file system that reports entry types, with whatever schedule the machine happens to produce.",
  ["src/bftw.c", "src/dir.c", "src/ioq.c", "src/eval.c"],
  [("traversal queues and directory buffering", "src/bftw.c: bftw(), bftw_push(), bftw_pop()"), ("path construction", "src/bftw.c: bftw_build_path()"), ("directory reading", "src/dir.c: bfs_readdir()")])
P("C02", "Visit order obeys the selected search strategy",
  "Directories are visited before their contents, or after them when depth-first post-order is requested; breadth-first and iterative strategies visit in order of depth, and depth-first search finishes a directory's subtree before its next sibling directory. Sorted searches visit siblings in name order, with results that do not depend on thread timing.",
  ["inputs", "schedules", "configurations"], "all trees, entry orders, strategies, sorting, post-order and completion orders",
  "Order tests use a few trees and cannot force background work to complete in adversarial orders.",
  ["src/bftw.c"],
  [("strategy implementations", "src/bftw.c: bftw_impl(), bftw_ids(), bftw_eds()"), ("queue balancing and sorting", "src/bftw.c: bftw_list_sort(), bftw_queue_push()")])
P("C03", "Depth limits, pruning and quitting cut exactly what they should",
  "Minimum and maximum depths select exactly the files at permitted depths; pruning a directory skips exactly its descendants (and has no effect in post-order); quitting stops every later evaluation. This holds for every strategy and thread count.",
  ["inputs", "schedules", "configurations"], "all trees, limits, pruned and quitting positions, strategies and completion orders",
  "The tests use a few limits on one tree; the strategies reuse pruning internally and interact with background work.",
  ["src/bftw.c", "src/eval.c", "src/parse.c"],
  [("depth filters and pruning", "src/bftw.c: bftw_call_back(), bftw_visit(), bftw_ids_visit()"), ("actions", "src/eval.c: eval_prune(), eval_quit(), eval_callback()")])
P("C04", "Symbolic links, cycles and mount points are followed as requested",
  "Symbolic links are followed never, only on the command line, or always, as requested, falling back to the link itself when broken; cycles are detected and reported rather than entered; staying on one file system excludes other devices as documented; and the once-only mode visits each device and inode pair exactly once.",
  ["inputs", "configurations"], "all trees of files, directories and links with every target, every device and inode assignment",
  "Tests contain a few link layouts; device boundaries need mounts the tests mostly cannot create.",
  ["src/bftw.c", "src/eval.c", "src/stat.c"],
  [("link following and cycle detection", "src/bftw.c: bftw_stat_flags(), bftw_ftwbuf_init(), bftw_must_stat()"), ("uniqueness", "src/eval.c: eval_file_unique()")])
P("C05", "I/O errors are reported and never hide unrelated files",
  "When opening or reading a directory, or examining a file, fails at any time, the error is reported and the exit status is nonzero, while every file not beneath the failure is still visited exactly once. Files that vanish during the search are ignored when that is requested.",
  ["inputs", "faults", "schedules"], "every failing call position and error code, all trees, strategies, and completion orders",
  "Tests cannot inject a failure at each individual system call.",
  ["src/bftw.c", "src/dir.c", "src/eval.c"],
  [("error propagation", "src/bftw.c: bftw_error_recoverable(), bftw_opendir(), bftw_closedir()"), ("error reporting", "src/eval.c: eval_callback()")])
P("C06", "Few file descriptors or long paths never change the result",
  "With any descriptor limit above the documented minimum, with the system refusing further descriptors, and with paths longer than the system accepts in one call, the search yields the same files as with ample resources and leaks no descriptors.",
  ["inputs", "faults", "schedules", "configurations"], "all trees, descriptor limits, descriptor exhaustion points, path-length limits and completion orders",
  "Tests use one low limit and one very deep directory.",
  ["src/bftw.c", "src/eval.c", "src/dir.c"],
  [("descriptor cache and unwrapping", "src/bftw.c: bftw_cache_reserve(), bftw_unwrapdir(), bftw_file_open()"), ("limit computation", "src/eval.c: infer_fdlimit()")])
P("C08", "Optimization levels never change what a command does",
  "For every expression and every file, running with any optimization level produces (in the absence of I/O errors) the same output, the same actions and the same exit status as running with optimization disabled.",
  ["programs", "inputs", "configurations"], "all expressions built from tests, actions, negation, conjunction, disjunction and comma; all file attributes; levels 0 to 3",
  "The tests run a few dozen fixed expressions over one fixed tree; the optimizer's facts depend on the numeric constants, the nesting and the attributes of the file.",
  ["src/opt.c", "src/eval.c", "src/parse.c"],
  [("data-flow analysis, reordering and simplification passes", "src/opt.c: optimize()"), ("inferred traversal depth limits", "src/opt.c: bfs_optimize()")])
P("C09", "Numeric tests compare exactly as documented",
  "The link-count, inode, user, group and size tests print a file exactly when its attribute is equal to, less than or greater than the given number as documented, with sizes rounded up to whole units. The same holds for the sparse, same-file, unknown-owner, named-owner and emptiness tests, for every attribute value including the extremes.",
  ["inputs"], "every value of the tested attribute and every numeric argument and unit",
  "Tests use a handful of small files; boundary values, rounding and huge sizes are not created.",
  ["src/eval.c", "src/parse.c", "src/stat.c", "src/bfstd.c"],
  [("integer comparison", "src/eval.c: bfs_expr_cmp()"), ("size rounding", "src/eval.c: eval_size(), eval_sparse()"), ("stat conversion", "src/stat.c")])
P("C10", "Time tests compare ages and timestamps exactly as documented",
  "The age tests (in days, minutes or with an explicit unit), the newer-than tests for every pair of timestamps and the access-after-change test are true exactly when the documented comparison of the file's timestamp with the reference time holds, down to the nanosecond and also for timestamps in the future or before the epoch.",
  ["inputs"], "every current time, file timestamp, reference timestamp and argument",
  "Tests use a few fixed dates with whole seconds.",
  ["src/eval.c", "src/parse.c", "src/xtime.c", "src/stat.c"],
  [("time difference and comparison", "src/eval.c: eval_time(), eval_newer(), eval_used(); src/xtime.c"), ("argument parsing", "src/parse.c: parse_time(), parse_newerxy()")])
P("C11", "Permission tests match exactly the requested mode bits",
  "A permission test matches a file exactly when its permission bits equal the requested ones, include all of them, or include any of them, according to the prefix given, for every mode. The requested mode may be octal or a list of chmod-style symbolic clauses applied to an empty mode, where the umask limits clauses that name no class of users; malformed modes are rejected. The readable, writable and executable tests agree with what the operating system grants.",
  ["inputs"], "every 12-bit mode, every requested mode and prefix, files and directories",
  "Tests cover a dozen modes on a few files.",
  ["src/eval.c", "src/parse.c"],
  [("mode parsing", "src/parse.c: parse_mode(), parse_perm()"), ("mode comparison", "src/eval.c: eval_perm()")])
P("C12", "Type tests report the true type of every file",
  "The type tests match a file exactly when its type (or, for the dereferencing variant, the type of the other end of a symbolic link) is among those listed, whichever symbolic-link mode is active, and whether or not the target of a link exists.",
  ["inputs", "configurations"], "every file type, link target kind, list of types and symbolic-link mode",
  "Tests use fixed trees on a real file system that always reports entry types.",
  ["src/eval.c", "src/bftw.c", "src/stat.c", "src/dir.c"],
  [("type evaluation", "src/eval.c: eval_type(), eval_xtype()"), ("type resolution", "src/bftw.c: bftw_type()")])
P("C23", "Key sets return exactly the keys that were stored",
  "The in-memory key map finds a key exactly when that key was inserted and not since removed, whatever other keys share its prefix; prefix and postfix lookups return a correct match, and every stored value stays intact.",
  ["inputs", "histories"], "every set of byte-string keys and every sequence of insertions, lookups and removals",
  "Tests use a fixed list of strings; the failures of a bitwise trie depend on the position of the first differing bits.",
  ["src/trie.c", "src/trie.h"],
  [("path-compressed bitmap trie", "src/trie.c")])

P("C07", "Expressions combine tests and actions as documented",
  "For every expression built from tests, actions, negation, conjunction, disjunction, the comma operator, parentheses and exclusions, the files acted on, the order of the actions, and the exit status are those of a left-to-right short-circuit evaluation, with the default action added exactly when no action is given. Precedence is parentheses, then negation, then and, then or, then comma.",
  ["programs", "configurations"], "all expressions up to the stated number of primaries, at every nesting",
  "The tests contain a few dozen fixed expressions.",
  ["src/parse.c", "src/eval.c", "src/expr.c", "src/opt.c"],
  [("expression grammar", "src/parse.c: parse_expr(), parse_term(), parse_clause()"), ("evaluation", "src/eval.c: eval_and(), eval_or(), eval_comma(), eval_not()"), ("simplification", "src/opt.c")])
P("C13", "Deletion removes exactly the selected files",
  "The delete action removes exactly the files for which it is evaluated, children before their directories, never follows symbolic links, never touches anything outside the search and never removes the starting directory itself when that is the current directory. It is true exactly when the file was removed, and every failure is reported and reflected in the exit status without stopping the rest.",
  ["inputs", "faults", "schedules", "configurations"], "all trees with links leading outside, selections, failing removals, strategies and completion orders",
  "Tests delete a few fixed trees and cannot make individual removals fail.",
  ["src/eval.c", "src/bftw.c", "src/parse.c"],
  [("removal", "src/eval.c: eval_delete()"), ("post-order traversal", "src/bftw.c: bftw_gc(), bftw_pop_dir()")])
P("C14", "Each command gets exactly the file it is run for",
  "The exec action runs one command per file it is evaluated for, in order, with every occurrence of the placeholder in every argument replaced by the path and all other text unchanged, using the first executable of that name in the search path. Commands inherit no descriptors, and start with the original signal mask, signal dispositions and descriptor limit, after earlier output has been flushed.",
  ["inputs", "configurations", "schedules"], "all argument templates, trees, root spellings, search paths and strategies",
  "Tests use a few fixed templates and file names.",
  ["src/exec.c", "src/xspawn.c", "src/eval.c", "src/parse.c"],
  [("substitution", "src/exec.c: bfs_exec_format_arg(), bfs_exec_single()"), ("search path", "src/xspawn.c: bfs_resolve_early(), bfs_resolve_late()"), ("process creation", "src/xspawn.c: bfs_posix_spawn(), bfs_fork_spawn()")])
P("C15", "Batched commands receive every file exactly once within size limits",
  "The batching form of the exec action passes every file it is evaluated for to exactly one command, in order and after the fixed arguments, never exceeding the argument-size limit and using few commands. When the system rejects an argument list as too long, the files are retried in smaller batches; only a path that cannot fit on its own is skipped, and it is reported.",
  ["inputs", "faults", "configurations"], "all numbers and lengths of paths, advertised and actual size limits",
  "Tests use one large directory with the machine's own limit.",
  ["src/exec.c"],
  [("batching and limits", "src/exec.c: bfs_exec_multi(), bfs_exec_arg_max(), bfs_exec_would_overflow()"), ("recovery", "src/exec.c: bfs_exec_flush(), bfs_exec_update_max()")])
P("C16", "Commands of execdir run in the directory that contains the file",
  "The execdir and okdir actions run each command in the directory that contains the file, with an argument starting with ./ that names the file from there, for every spelling of the starting path, in batches that never mix directories. The working directory of the search itself never changes, and a directory that cannot be opened affects only the files directly in it.",
  ["inputs", "faults", "schedules", "configurations"], "all trees, root spellings and pairs of roots, orders, descriptor limits, spawn failures",
  "Tests use a few fixed roots; batches that mix directories need unusual orders.",
  ["src/exec.c", "src/xspawn.c", "src/bftw.c"],
  [("working directory", "src/exec.c: bfs_exec_openwd(), bfs_exec_changed_dirs(), bfs_exec_closewd()"), ("descriptor of the parent", "src/bftw.c: bftw_ftwbuf_init()")])
P("C17", "Command results and confirmations decide what happens next",
  "The exec action is true exactly when its command exits successfully, except that the batching form is always true and turns any failure into a nonzero exit status; a command that cannot be started is reported and makes the exit status nonzero, and later files are still processed. The confirming actions run a command exactly when the answer read for it is affirmative, and are false otherwise.",
  ["inputs", "faults"], "all command statuses, spawn errors at every position, all answers and ends of input",
  "Tests use a handful of exit codes and answers.",
  ["src/exec.c", "src/eval.c", "src/xspawn.c", "src/bfstd.c"],
  [("status handling", "src/exec.c: bfs_exec_spawn(), bfs_exec(), bfs_exec_finish()"), ("prompting", "src/bfstd.c: ynprompt(), xrpmatch()")])
P("C18", "The printf action prints exactly what its format specifies",
  "A valid format prints, for each file, the literal text, escapes and directives in order, where each directive gives the documented attribute (path parts, numbers, names, permissions, types, link targets and timestamps) formatted with the given flags, width and precision. Every other format is rejected with an error before anything is printed.",
  ["inputs", "configurations"], "all format strings, attribute values, timestamps, root spellings and owners",
  "Tests print a few fixed formats for files with ordinary attributes.",
  ["src/printf.c", "src/eval.c", "src/bfstd.c", "src/pwcache.c", "src/mtab.c"],
  [("format parsing", "src/printf.c: bfs_printf_parse()"), ("directives", "src/printf.c: bfs_printf_*()"), ("permission strings", "src/bfstd.c: xstrmode()")])
P("C19", "Running out of memory never loses or corrupts results silently",
  "When any memory allocation fails, at any point of a run, the program does not crash or misuse memory: either the output and effects are exactly those of an undisturbed run, or a message is printed and the exit status is nonzero, and whatever was printed is part of the right output.",
  ["faults", "inputs", "schedules"], "every allocation of every kind of command as the failing one, and every point from which all allocations fail",
  "Tests do not make allocations fail.",
  ["src/alloc.c", "src/bftw.c", "src/parse.c", "src/eval.c", "src/ctx.c", "src/printf.c", "src/exec.c", "src/trie.c", "src/dstring.c", "src/color.c"],
  [("allocation wrappers", "src/alloc.c: alloc(), reserve(), arena_alloc(), varena_alloc()"), ("error propagation", "src/bftw.c, src/parse.c, src/ctx.c")])

P("C20", "Output actions write exact records, or report that they could not",
  "The print, print0, printx and ls actions and their file-writing variants write exactly one record per file, with the documented bytes, for every file name, and actions that name the same output file share it without losing data. When writing to any output fails at any point, an error is printed and the exit status is nonzero.",
  ["inputs", "faults", "configurations"], "all file names and attributes, output files and their aliases, and failing write positions",
  "Tests use ordinary names, and a full device only in one configuration.",
  ["src/eval.c", "src/ctx.c", "src/color.c", "src/printf.c"],
  [("output actions", "src/eval.c: eval_fprint(), eval_fprint0(), eval_fprintx(), eval_fls()"), ("shared files", "src/ctx.c: bfs_ctx_dedup()"), ("failures", "src/ctx.c: bfs_ctx_free(), bfs_ctx_fflush()")])
P("C21", "Names quoted in diagnostics are safe and mean the original name",
  "When a diagnostic quotes a word of the command line, or a debugging dump quotes an argument, what is printed is a valid shell word that evaluates to the original bytes, and contains no control characters.",
  ["inputs"], "all argument strings, including invalid UTF-8, control characters and quotes",
  "Tests quote a few fixed strings.",
  ["src/bfstd.c", "src/color.c", "src/diag.c"],
  [("shell quoting", "src/bfstd.c: wordesc(), wordnesc()"), ("printing", "src/color.c: cvbuff(), src/diag.c: highlight_args()")])
P("C22", "Name, path, link-target and regex tests match as documented",
  "The name, path and link-target tests, in their case-sensitive and case-insensitive forms, are true exactly when the shell pattern matches the whole base name (ignoring trailing slashes of a starting path), the whole path, or the whole link target. The regular-expression tests are true exactly when the whole path matches, in the selected dialect.",
  ["inputs", "configurations"], "all patterns, names, link targets and root spellings",
  "Tests use a few fixed patterns; the fast paths for literal patterns and for suffixes depend on the exact pattern.",
  ["src/eval.c", "src/parse.c", "src/bfstd.c", "src/xregex.c"],
  [("patterns", "src/eval.c: eval_fnmatch(), eval_name(), eval_path(), eval_lname()"), ("literal patterns", "src/parse.c: parse_fnmatch()"), ("regular expressions", "src/xregex.c: bfs_regexec()")])

P("C24", "Background I/O completes every request exactly once",
  "Every request submitted to the background I/O queue comes back exactly once, with the result and data of that operation, however the threads interleave. A blocking wait returns whenever work is outstanding; requests to close a file or directory are carried out even after cancellation; and cancelling or destroying the queue never hangs, loses a resource, or touches memory that another thread is using.",
  ["schedules", "inputs"], "all interleavings of the submitting thread and the background threads, request mixes, queue depths and cancellation points",
  "A test run samples a handful of the schedules, on a machine with strong memory ordering.",
  ["src/ioq.c", "src/thread.c"],
  [("lock-free ring with blocking slots", "src/ioq.c: ioqq_push(), ioqq_pop(), ioq_slot_push(), ioq_slot_pop()"), ("monitors", "src/ioq.c: ioq_slot_wait(), ioq_slot_wake()"), ("cancellation", "src/ioq.c: ioq_cancel(), ioq_destroy(), ioq_dispatch_sync()")])
P("C25", "Signal hooks run exactly when they should, at any interruption point",
  "A signal hook runs once per delivery between its registration and its removal and never afterwards, a one-shot hook only for the first delivery, wherever the signal interrupts the program and whichever thread handles it. A fatal signal that no hook continues runs the exit hooks and then terminates the process by that same signal; faults run no hooks. Handlers preserve errno, and resetting restores the original disposition of every signal or reports failure.",
  ["schedules", "histories", "faults"], "all sequences of registrations and removals, signals, interruption points and handling threads",
  "Tests deliver signals at a few points of a fixed history.",
  ["src/sighook.c", "src/bar.c", "src/main.c"],
  [("hook lists", "src/sighook.c: rcu_list_append(), rcu_list_remove(), rcu_peek(), rcu_update()"), ("delivery", "src/sighook.c: dispatch(), run_hooks(), reraise()"), ("reset", "src/sighook.c: sigreset()")])
P("C26", "Hidden files and exclusions are filtered exactly",
  "The hidden-file test is true exactly when a file's own name starts with a dot and is not . or .. (trailing slashes of a starting point do not count). Skipping hidden files, or excluding files by an arbitrary expression, removes exactly the matching files and everything below them from the search, wherever the option stands on the command line, with every search strategy and with post-order output; all other files are treated as if the option were absent.",
  ["inputs", "configurations"], "all trees, names, exclusion expressions and positions, strategies and starting points",
  "Tests use one fixed tree with a few dot files.",
  ["src/eval.c", "src/parse.c", "src/opt.c", "src/bftw.c"],
  [("hidden test", "src/eval.c: eval_hidden()"), ("exclusion", "src/eval.c: eval_callback(), eval_exclude; src/parse.c: parse_exclude(), parse_nohidden()")])
P("C27", "Numeric arguments are read exactly or rejected",
  "A numeric argument (with its optional sign and unit) has exactly the value it spells, however large; one that is malformed, carries an unknown unit or does not fit is rejected with an error message and a non-zero exit status before anything is printed or done.",
  ["inputs"], "all argument strings of the numeric tests, the depth limits, the result limit and the exit status",
  "Tests try a dozen malformed numbers and no overflowing ones.",
  ["src/parse.c"],
  [("integer parsing", "src/parse.c: parse_int(), parse_icmp()"), ("units", "src/parse.c: parse_size(), parse_time()")])

P("C28", "Dates given as arguments denote exactly the instant they spell",
  "A timestamp argument (-newermt and its -newerXt relatives, -asince, -csince, -msince, -Bsince) in ISO 8601-like form (a date, optionally with hours, minutes and seconds, with or without separators, optionally followed by Z or a numeric time zone offset) or as @seconds denotes exactly that instant, before or after 1970; without a zone it is local time, daylight saving included. The test is true exactly of the files whose chosen timestamp is strictly later. Any other string is rejected with an error message and a non-zero exit status before anything is printed.",
  ["inputs", "configurations"], "all timestamp strings, file times and local time zones",
  "Tests use five dates, one malformed string and the UTC zone.",
  ["src/xtime.c", "src/parse.c", "src/eval.c"],
  [("date parsing", "src/xtime.c: xgetdate(), xgetpart(), xmktime(), xtimegm()"), ("use", "src/parse.c: parse_reftime(), parse_newerxy(), parse_since()"), ("comparison", "src/eval.c: eval_newer()")])
P("C29", "Every starting point is searched, as spelled and in order",
  "Each starting point on the command line (before, after or inside the expression, around --, or given with -f) and each NUL-terminated name in a -files0-from list (the last one may lack its terminator; names may contain any other byte) is searched exactly once, in the order given, and printed as spelled; with none given the current directory is searched, but an empty list means no search. A starting point that does not exist is reported and makes the exit status non-zero without affecting the others. A list that cannot be read completely, or combined with other starting points, is rejected with a message before anything is printed.",
  ["inputs", "faults"], "all starting points, layouts of the command line, list contents and read errors",
  "Tests use a handful of lists and fixed argument orders.",
  ["src/parse.c", "src/bfstd.c", "src/eval.c", "src/bftw.c"],
  [("arguments", "src/parse.c: skip_paths(), parse_root(), parse_f()"), ("lists", "src/parse.c: parse_files0_roots(), parse_files0_from(); src/bfstd.c: xgetdelim()")])
P("C30", "Colours follow LS_COLORS and never change the text",
  "With colours on, the output without its escape sequences is exactly the output without colours, every escape sequence is well-formed, and no colour is left on at the end of a line or of the output. Each file name has the colour that LS_COLORS gives to the file's type, permissions, link count, link state or name, with the documented precedence and fallbacks (a switched-off kind falls back to the next applicable one; the last matching extension counts, in any case unless two spellings differ in colour), and the leading directories have the directory colour.",
  ["inputs", "configurations"], "all files, names, link targets and LS_COLORS settings",
  "Tests use one fixed tree with thirty settings.",
  ["src/color.c", "src/printf.c", "src/eval.c"],
  [("colour choice", "src/color.c: file_color(), get_ext(), build_iext_trie(), cpath_init()"), ("settings", "src/color.c: parse_gnu_ls_colors(), set_esc(), set_ext()"), ("output", "src/color.c: print_path_colored(), print_colored(), print_reset()")])
P("C31", "Attribute and access-list tests report what the file itself has",
  "-xattr, -xattrname, -acl and -capable are true exactly for the files that have an extended attribute, the named one (even with an empty value), an access control list beyond the mode bits (or any default list, for directories) or a capability, and -ls marks exactly the files with such a list. They ask about the visited file itself, the link when it is not followed and its target when it is, wherever the file is and whether or not /proc is available. A file system without support, or a missing attribute, just makes them false; any other failure is reported and changes the exit status. Nothing obtained from the libraries leaks.",
  ["inputs", "faults"], "all files, attribute sets, lists and errors",
  "Tests set one attribute or list on one file of a fixed tree, where the file system permits it.",
  ["src/fsade.c", "src/eval.c"],
  [("checks", "src/fsade.c: bfs_check_xattrs(), bfs_check_xattr_named(), bfs_check_acl(), bfs_check_posix1e_acl(), bfs_check_capabilities(), fake_at()"), ("tests", "src/eval.c: eval_xattr(), eval_xattrname(), eval_acl(), eval_capable(), eval_fls()")])
CAUGHT = {}
HOW = {
 "C01": "A whole bfs run over a symbolic tree; the oracle enumerates the tree itself and requires each path once, with the right depth and type (via -printf).",
 "C02": "As C01; the oracle compares the position of every pair of visited files with the order the strategy documents.",
 "C03": "As C01 with symbolic limits and a symbolic file at which the action fires; the oracle computes the permitted set.",
 "C04": "As C01 with links to symbolic targets and symbolic device/inode numbers; the oracle follows the links itself.",
 "C05": "As C01 with one failing call at a symbolic position with a symbolic error code.",
 "C06": "As C01 under a descriptor limit; the model fails opens beyond it and counts what is left open at exit.",
 "C08": "Two runs in the same path, -O0 and -O3, with the same symbolic numbers and attributes; outputs and statuses must be equal.",
 "C09": "One whole run per test with symbolic argument digits and a fully symbolic stat buffer; the oracle is the documented arithmetic in wider integers.",
 "C10": "As C09 for times.",
 "C11": "As C09 for modes.",
 "C12": "As C09 for types and link targets.",
 "C23": "Direct calls of the map's interface with symbolic keys, against a list of the keys stored.",
 "C07": "A whole run of a symbolically chosen command line over a fixed tree; the oracle is a small independent parser and evaluator in the harness.",
 "C13": "As C01 with -delete; the oracle computes what must be gone bottom-up and compares it with the model file system.",
 "C14": "As C01 with -exec; the model records every process, and the oracle substitutes the placeholder itself, over fully symbolic template bytes.",
 "C15": "As C14 with -exec {} + under symbolic advertised and hidden size limits.",
 "C16": "As C14 with -execdir; the oracle resolves each recorded argument from the recorded working directory.",
 "C19": "Two whole runs in the same path, the second with one symbolically chosen failing allocation (or all from there on), compared with the first.",
 "C18": "A whole run with symbolic format bytes against a reference interpreter of formats, and runs per directive with fully symbolic attributes whose printed form is parsed back.",
 "C20": "Whole runs with fully symbolic names or attributes and with outputs that stop accepting data at a symbolic position; the oracle writes the expected bytes itself.",
 "C21": "Whole runs with symbolic arguments; the oracle is a small shell-word evaluator in the harness that reads the printed text back.",
 "C22": "Whole runs with symbolic patterns and symbolic names; the oracle is a reference matcher in the harness, written from POSIX.",
 "C24": "Direct calls of the queue's interface over modelled system calls, with one symbolic scheduling choice per atomic or lock operation; the oracle counts completions per request, and a happens-before detector built on the memory orders in the source reports races.",
 "C25": "Direct calls of the hook interface with a symbolic history and one symbolic point at which the signal arrives, either interrupting the thread or handled by another one.",
 "C26": "As C01 with symbolic names (hidden or not), a symbolic exclusion and a symbolic position on the command line; the oracle filters the tree itself.",
 "C27": "As C09 with every character of the argument symbolic; the oracle reads the number in 128-bit arithmetic.",
 "C28": "A whole run with symbolic digits (and one fully symbolic byte replaced or inserted) in the argument and a fully symbolic file time; the oracle parses the documented forms itself and counts days by the calendar rules.",
 "C29": "A whole run with each starting point chosen symbolically, or with a list of symbolic bytes, over a small tree; the oracle splits the list, resolves each name and writes the expected output itself.",
 "C30": "A whole run with -color, a symbolic set of LS_COLORS keys and fully symbolic modes and link counts; the oracle takes the output apart into text and attributes and derives each colour from the documented precedence.",
 "C31": "A whole run over a symbolic placement of the file, with models of the attribute calls, libacl and libcap, the opposite attributes on every other file that could be asked by mistake, and a symbolic error; the oracle is the definition of each test.",
 "C17": "As C14 with symbolic wait statuses, spawn errors and answers.",
}
