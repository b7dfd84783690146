// Signal hooks (real sighook.c): registration, removal, dispatch and reset
// under every short history, interruption point and interleaving.
#include "common.h"
#include "sighook.h"
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>

extern struct sigaction menv_sigact[65];
extern sigset_t menv_sigmask;
extern int (*menv_sigfail)(int n);

#define MAX 8
// phases of a hook
enum { NONE, ADDING, LIVE, REMOVING, GONE };
static struct rec { struct sighook *h; int sig; enum sigflags flags; int phase, runs[4], fired; } rec[MAX];
static int nrec, now_sig[4];
#define ME __sym_self()
static bool faulting;

static void hook(int sig, siginfo_t *info, void *arg) {
	struct rec *r = arg;
	SYM_ASSERT(r->phase != NONE && r->phase != GONE, "a hook ran outside of its lifetime");
	SYM_ASSERT(sig == r->sig || r->sig == 0, "a hook ran for another signal");
	SYM_ASSERT(info->si_signo == sig, "wrong signal information");
	r->runs[ME]++;
	r->fired++;
	errno = 1234;
}
static bool fatal;
static bool is_fatal(int sig) { return fatal || sig == SIGUSR1 || sig == SIGALRM || sig == SIGINT || sig == SIGTERM || sig == SIGPIPE; }

// deliver a signal the way the kernel does
static void deliver(int sig, bool strict) {
	siginfo_t info;
	memset(&info, 0, sizeof(info));
	info.si_signo = sig;
	struct sigaction *a = &menv_sigact[sig];
	if (!(a->sa_flags & SA_SIGINFO)) {
		SYM_ASSERT(a->sa_handler == SIG_DFL || a->sa_handler == SIG_IGN, "odd handler");
		for (int i = 0; i < nrec; ++i) SYM_ASSERT(rec[i].sig != sig || rec[i].phase != LIVE, "no handler is installed for a hooked signal");
		return;
	}
	bool cont = false;
	int phase0[MAX];
	for (int i = 0; i < MAX; ++i) rec[i].runs[ME] = 0;
	for (int i = 0; i < nrec; ++i) {
		phase0[i] = rec[i].phase;
		if (rec[i].sig == sig && rec[i].phase == LIVE && (rec[i].flags & SH_CONTINUE)) cont |= !((rec[i].flags & SH_ONESHOT) && rec[i].fired);
	}
	now_sig[ME] = sig;
	errno = 42;
	a->sa_sigaction(sig, &info, NULL);
	SYM_ASSERT(errno == 42, "a signal handler changed errno");
	now_sig[ME] = 0;
	SYM_ASSERT(!is_fatal(sig) || cont || !strict, "a fatal signal was survived");
	for (int i = 0; i < nrec; ++i) {
		struct rec *r = &rec[i];
		SYM_ASSERT(r->runs[ME] <= 1, "a hook runs at most once per signal");
		if (phase0[i] != LIVE || r->phase != LIVE) continue; // being added or removed: may or may not run
		int want = r->sig == sig && !((r->flags & SH_ONESHOT) && r->fired - r->runs[ME] > 0);
		SYM_ASSERT(r->runs[ME] == want, "each hook of the signal runs exactly once");
	}
	sym_cover("delivered");
}
int MDL(raise)(int sig) {
	// the process dies here
	SYM_ASSERT(!faulting, "a fault is re-raised from somewhere else");
	SYM_ASSERT(sig == now_sig[ME], "died by another signal");
	SYM_ASSERT(menv_sigact[sig].sa_handler == SIG_DFL, "the signal is not at its default action");
	SYM_ASSERT(!sigismember(&menv_sigmask, sig), "the signal is still blocked");
	SYM_ASSERT(is_fatal(sig), "died by a harmless signal");
	for (int i = 0; i < nrec; ++i) {
		struct rec *r = &rec[i];
		if (r->phase != LIVE || (r->sig != sig && r->sig != 0)) continue;
		SYM_ASSERT(!(r->flags & SH_CONTINUE) || ((r->flags & SH_ONESHOT) && r->runs[ME] == 0), "died although a hook asked to continue");
		int want = !((r->flags & SH_ONESHOT) && r->fired - r->runs[ME] > 0);
		SYM_ASSERT(r->runs[ME] == want, "hooks and exit hooks run exactly once before dying");
	}
	sym_cover("died");
	sym_done();
}
static void irq(void *arg) {
	// signals are blocked during their own handlers only
	if (now_sig[0] != (int)(intptr_t)arg) deliver((int)(intptr_t)arg, false);
	sym_cover("irq");
}
static void other(void *arg) { irq(arg); }

static int failsig;
static int sigs[] = {SIGWINCH, SIGUSR1, 0};
static void add(int which, int flags) {
	struct rec *r = &rec[nrec];
	r->sig = sigs[which];
	r->flags = flags;
	r->phase = ADDING;
	nrec++;
	r->h = r->sig ? sighook(r->sig, hook, r, flags) : atsigexit(hook, r);
	if (!r->h) {
		SYM_ASSERT(r->sig && r->sig == failsig, "registration failed");
		r->phase = GONE;
		return;
	}
	SYM_ASSERT(!r->sig || (menv_sigact[r->sig].sa_flags & SA_SIGINFO), "registered without a handler");
	r->phase = LIVE;
}
static void rem(int i) {
	rec[i].phase = REMOVING;
	sigunhook(rec[i].h);
	rec[i].phase = GONE;
}
static void writer(void *arg) {
	struct rec *r = &rec[7];
	r->sig = SIGWINCH;
	r->phase = ADDING;
	r->h = sighook(SIGWINCH, hook, r, 0);
	r->phase = LIVE;
	if (sym_bool("wrem")) { r->phase = REMOVING; sigunhook(r->h); r->phase = GONE; }
}
static int sigfail(int n) { return n == failsig; }

void harness(void) {
	int n = sym_param("n", 4), mode = sym_param("mode", 0), nsig = sym_param("sigs", 3);
	world();
	menv_sigact[SIGPIPE].sa_handler = SIG_IGN;
	struct sigaction orig[65];
	memcpy(orig, menv_sigact, sizeof(orig));
	bool late = false;
	if (mode == 3) {
		failsig = (int)sym_range("failsig", 0, 31);
		late = sym_bool("late");
		if (!late) menv_sigfail = sigfail;
		else failsig = -failsig;
	}
	if (mode == 4) {
		// the exit hooks run for every signal that kills the process
		add(2, 0);
		int s = (int)sym_range("signal", 1, 63);
		if (s == SIGKILL || s == SIGSTOP || s == 32 || s == 33) return;
		bool kills = !(s == SIGCHLD || s == SIGURG || s == SIGWINCH || s == SIGCONT || s == SIGTSTP || s == SIGTTIN || s == SIGTTOU);
		siginfo_t info;
		memset(&info, 0, sizeof(info));
		info.si_signo = s;
		bool fault = s == SIGSEGV || s == SIGBUS || s == SIGFPE || s == SIGILL;
		int code = fault ? (int)sym_range("code", 0, 2) - 1 : 0;
		info.si_code = code;
		faulting = fault && code > 0;
		sigs[0] = sigs[1] = s;
		struct sigaction *a = &menv_sigact[s];
		SYM_ASSERT(!kills || (a->sa_flags & SA_SIGINFO), "every fatal signal has a handler");
		if (!(a->sa_flags & SA_SIGINFO)) { sym_cover("harmless"); return; }
		fatal = kills;
		now_sig[ME] = s;
		a->sa_sigaction(s, &info, NULL);
		if (fault && code > 0) {
			SYM_ASSERT(rec[0].fired == 0, "no hooks run after a fault");
			SYM_ASSERT(menv_sigact[s].sa_handler == SIG_DFL, "a fault dies when it is repeated");
			sym_cover("fault");
			return;
		}
		SYM_ASSERT(!kills, "a fatal signal was survived");
		return;
	}
	if (mode == 1 || mode == 2) add(0, SH_CONTINUE);
	if (mode == 1) __sym_irq(irq, (void *)(intptr_t)sigs[sym_choice("irqsig", 2)]);
	if (mode == 2) __sym_spawn(other, (void *)(intptr_t)SIGWINCH);
	if (mode == 5) {
		// two threads register and remove
		add(0, 0);
		uint64_t t = __sym_spawn(writer, NULL);
		struct rec *r = &rec[6];
		r->sig = SIGWINCH;
		r->phase = ADDING;
		r->h = sighook(SIGWINCH, hook, r, 0);
		r->phase = LIVE;
		if (sym_bool("rem")) { r->phase = REMOVING; sigunhook(r->h); r->phase = GONE; }
		__sym_join(t);
		nrec = MAX;
		deliver(SIGWINCH, true);
		sym_cover("done");
		return;
	}
	for (int i = 0; i < n; ++i) {
		int c = sym_choice("op", 2);
		if (c == 0) {
			int w = sym_choice("sig", nsig);
			add(w, w == 2 ? 0 : mode == 0 ? sym_choice("flags", 4) : SH_CONTINUE);
		} else {
			int k = nrec ? sym_choice("which", nrec) : 0;
			if (k >= nrec || rec[k].phase != LIVE) continue;
			rem(k);
		}
	}
	menv_sigfail = NULL;
	if (mode == 3 && late) {
		failsig = -failsig;
		bool hooked = failsig && (menv_sigact[failsig].sa_flags & SA_SIGINFO);
		menv_sigfail = sigfail;
		SYM_ASSERT(sigreset() == (hooked ? -1 : 0), "sigreset reports failures");
		menv_sigfail = NULL;
		sym_cover("late");
	} else if (mode == 3) {
		SYM_ASSERT(sigreset() == 0, "sigreset failed");
		for (int i = 1; i <= 64; ++i) SYM_ASSERT(menv_sigact[i].sa_handler == orig[i].sa_handler && menv_sigact[i].sa_flags == orig[i].sa_flags, "the original disposition is restored");
		sym_cover("reset");
	} else {
		int s = sym_choice("last", 2);
		deliver(sigs[s], true);
		if (mode == 0) deliver(sigs[s], true);
	}
	for (int i = 0; i < nrec; ++i) if (rec[i].phase == LIVE) rem(i);
	if (mode == 0) deliver(SIGWINCH, true);
	sym_cover("done");
}
