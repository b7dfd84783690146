"""Properties -> executor cases."""
PROPS = {}

def prop(pid, bounds, assumptions, level="exploration"):
    def d(fn):
        PROPS[pid] = {"cases": fn, "bounds": bounds, "assumptions": assumptions, "level": level}
        return fn
    return d

def C(name, harness, **kw):
    c = {"name": name, "harness": harness}
    c.update(kw)
    return c

LIBC = "libc is replaced by the C model in lib/libc.c (C.UTF-8 locale); allocation succeeds below 64 MiB unless the case injects failures"
LIBS = "optional libraries (libacl, libcap, libselinux, liburing, oniguruma) are configured out"
OSM = "the operating system is the in-memory model in lib/mfs.c, lib/mio.c and lib/menv.c (file system, stdio, processes, clock, users)"
ALL = [LIBC, LIBS, OSM]
OS = ["mio.c", "mfs.c", "menv.c"]

def W(name, harness, **kw):  # whole-program case
    kw.setdefault("models", OS)
    return C(name, harness, **kw)

@prop("C23", {"keys": "2-3 keys, 1-2 fully symbolic bytes each (plus a concrete shared prefix up to 17 bytes); 3-4 strings of up to 2 symbolic letters after a shared prefix of up to 70 bytes, with re-insertion and prefix and postfix searches; up to 16 keys below one node", "history": "insert all, probe, up to 2 removals in any order, clear"}, [LIBC])
def c23(tier):
    cs = []
    for n, l, f, a, r in [(3, 2, 0, 3, 2), (3, 9, 7, 3, 1), (4, 2, 0, 2, 2), (3, 18, 16, 3, 1), (3, 35, 33, 2, 3)]:
        cs.append(C(f"str-n{n}-l{l}-f{f}-a{a}", "trie.c", params={"n": n, "len": l, "fixed": f, "mode": 2, "alpha": a, "remove": r}, covers=["inserted", "removed", "done", "duplicate"], workers=2, time=150))
    for f in (0, 4):
        cs.append(C(f"wide-f{f}", "trie.c", params={"n": 16, "len": f + 1, "fixed": f, "mode": 3, "alpha": 2, "remove": 16}, covers=["inserted", "removed", "done"], workers=2, time=150))
    for f in (70,):
        cs.append(C(f"long-f{f}", "trie.c", params={"n": 3, "len": f + 2, "fixed": f, "mode": 2, "alpha": 2, "remove": 1}, defs=["-DKEYSZ=128"], covers=["inserted", "removed", "done", "duplicate"], workers=2, time=150))
    for n, l, f, r in [(3, 1, 0, 1), (2, 2, 0, 1), (2, 9, 7, 1), (2, 17, 15, 1)] if tier == "quick" else [(3, 1, 0, 2), (3, 2, 0, 1), (2, 9, 7, 1), (3, 17, 15, 1), (4, 1, 0, 3)]:
        cs.append(C(f"mem-n{n}-l{l}-f{f}", "trie.c", params={"n": n, "len": l, "fixed": f, "mode": 0, "remove": r}, covers=["inserted", "removed", "done"], eargs=["--split-clz"], workers=4, time=150 if tier == "quick" else 900))
    return cs

@prop("SMOKE", {}, [])
def smoke(tier):
    return [W("smoke", "smoke.c")]

PS = ["printed", "skipped"]
NUMB = {"argument": "optional sign and 1-2 (thorough: up to 4) symbolic decimal digits per numeric argument", "fields": "the tested stat field ranges over its whole type (inode numbers and sizes below 2^63)", "files": "one command-line argument, default optimization level"}

@prop("C09", NUMB, ALL)
def c09(tier):
    cs = []
    for d in ((1, 2) if tier == "quick" else (1, 2, 3, 4)):
        for t in range(0, 4):
            cs.append(W(f"t{t}-d{d}", "eval.c", params={"test": t, "digits": d}, covers=PS, time=120))
        for u in range(0, 9):
            cs.append(W(f"size{u}-d{d}", "eval.c", params={"test": 4, "unit": u, "digits": d}, covers=PS, time=120))
    for t in (20, 21, 22, 23, 25):
        cs.append(W(f"t{t}", "eval.c", params={"test": t}, covers=PS, time=120))
        for w in range(1, 8):
            if t != 25 or w < 4:
                cs.append(W(f"t{t}-w{w}", "eval.c", params={"test": t, "where": w}, covers=PS, time=120))
    for t in range(0, 5):
        for w in range(1, 8):
            cs.append(W(f"t{t}-w{w}", "eval.c", params={"test": t, "where": w, "digits": 1, "unit": w}, covers=PS, time=120))
    for t in (28, 29):
        cs.append(W(f"t{t}", "eval.c", params={"test": t}, covers=PS, time=120))
    return cs

@prop("C10", {"argument": "optional sign, 1 (thorough: 1-3) symbolic digits, every unit suffix", "times": "current time and file times anywhere in [-2^40, 2^40] seconds with any nanoseconds"}, ALL)
def c10(tier):
    cs = []
    for d in ((1,) if tier == "quick" else (1, 2, 3)):
        for t in range(5, 9):
            for u in range(0, 7):
                cs.append(W(f"age{t}-{u}-d{d}", "eval.c", params={"test": t, "unit": u, "digits": d}, covers=PS, time=120))
    for t in range(9, 18):
        cs.append(W(f"t{t}", "eval.c", params={"test": t}, covers=PS, time=60))
    for w in range(1, 8):
        for t in range(5, 18):
            if tier != "quick" or (t + w) % 3 == 0:
                cs.append(W(f"t{t}-w{w}", "eval.c", params={"test": t, "where": w, "unit": w - 1, "digits": 1}, covers=PS, time=60))
    return cs

@prop("C11", {"argument": "1-4 (thorough: 5) symbolic octal digits with every prefix", "mode": "every 12-bit mode, files and directories"}, ALL)
def c11(tier):
    cs = []
    for d in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)):
        for dr in (0, 1):
            cs.append(W(f"oct-d{d}-dir{dr}", "eval.c", params={"test": 18, "digits": d, "dir": dr}, covers=PS, time=60))
    for w in range(8):
        if w < 5:
            cs.append(W(f"access-w{w}", "eval.c", params={"test": 24, "where": w}, covers=PS, time=60))
        cs.append(W(f"oct-w{w}", "eval.c", params={"test": 18, "digits": 3, "where": w}, covers=PS, time=60))
    for dr in (0, 1):
        for l in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
            cs.append(W(f"sym-l{l}-dir{dr}", "eval.c", params={"test": 26, "len": l, "dir": dr, "small": int(l == 4 and tier == "quick" or l == 5)}, covers=PS + ["rejected"], time=100 if tier == "quick" else 900, workers=2))
        for w in range(1, 5):
            cs.append(W(f"sym-l2-dir{dr}-w{w}", "eval.c", params={"test": 26, "len": 2, "dir": dr, "where": w}, covers=PS + ["rejected"], time=100))
        for op in range(3):
            cs.append(W(f"sym-two-dir{dr}-{op}", "eval.c", params={"test": 26, "form": 1, "dir": dr, "umask": 0o22, "op": op}, covers=PS, time=100 if tier == "quick" else 900))
    return cs

@prop("C12", {"types": "every file type and every symlink target kind", "argument": "every list of 1-2 (thorough: 3) type letters"}, ALL)
def c12(tier):
    cs = []
    for n in ((1, 2) if tier == "quick" else (1, 2, 3)):
        for x in (0, 1):
            for L in (0, 1):
                for w in range(3):
                    cs.append(W(f"type-n{n}-x{x}-L{L}-w{w}", "eval.c", params={"test": 19, "ntypes": n, "x": x, "follow": L, "where": w}, covers=PS, time=200))
    for l in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        for w in (0, 1, 2):
            cs.append(W(f"list-l{l}-w{w}", "eval.c", params={"test": 27, "len": l, "where": w}, covers=["rejected"] + (PS if l % 2 else []), time=200))
    return cs

@prop("C08", {"expressions": "all negated/unnegated pairs from ten families of tests joined by -a, -o and the comma operator (thorough: triples with every grouping)", "attributes": "the attributes each family tests are symbolic", "levels": "-O3 against -O0 (thorough: -O1 and -O2 as well)"}, ALL)
def c08(tier):
    cs = []
    for fam in range(10):
        for o in (0, 1, 2) if fam in (0, 3, 4, 8, 9) else (-1,):
            cs.append(W(f"f{fam}-n2" + (f"-op{o}" if o >= 0 else ""), "opt.c", params={"fam": fam, "n": 2, "fixop": o, "dir": 1 if fam in (4,5,6) else 0}, covers=["ran"], time=200))
    for fam in (10, 11):
        cs.append(W(f"f{fam}-n2", "opt.c", params={"fam": fam, "n": 2, "dir": 1}, covers=["ran"], time=200))
        cs.append(W(f"f{fam}-n3", "opt.c", params={"fam": fam, "n": 3, "dir": 1, "neg": 0}, covers=["ran"], time=200))
        cs.append(W(f"f{fam}-bare3", "opt.c", params={"fam": fam, "n": 3, "dir": 1, "neg": 0, "bare": 1}, covers=["ran"] * (fam == 10), time=200))
    cs.append(W("f5-limits", "opt.c", params={"fam": 5, "n": 1, "dir": 1, "limits": 1}, covers=["ran"], time=200))
    cs.append(W("f12-n2", "opt.c", params={"fam": 12, "n": 2, "dir": 1}, covers=["ran"], time=200))
    cs.append(W("f13-excl1", "opt.c", params={"fam": 13, "n": 1, "dir": 1, "excl": 1}, covers=["ran"], time=200))
    cs.append(W("f9-bare", "opt.c", params={"fam": 9, "n": 2, "neg": 0, "bare": 1}, covers=["ran"], time=200))
    return cs

IOQ = OS + ["mioq.c"]
def T(name, harness="tree.c", **kw):
    k = {x: kw.pop(x) for x in ("time", "workers", "covers", "eargs") if x in kw}
    k.setdefault("covers", ["done"])
    if kw.get("threads", 1) > 1:
        k["models"] = IOQ
        k["exclude"] = ["ioq.c"]
    else:
        k["defs"] = ["-DNOIOQ"]
    if harness == "big.c":
        k["defs"] = k.get("defs", []) + ["-DMFS_MAXENT=200", "-DMFS_MAXFD=700", "-DMIOQ_MAX=420"]
        k.setdefault("max_inst", 60000000)
        k.setdefault("time", 100)
    return W(name, harness, params=kw, **k)
def B(name, **kw):
    return T("big-" + name, harness="big.c", **kw)


def deeper(cs, tier):
    """In the thorough tier, every small-tree case again with one more file and a longer symbolic schedule."""
    if tier == "quick":
        return cs
    more = []
    for c in cs:
        if c["harness"] != "tree.c":
            continue
        d = dict(c, params=dict(c["params"]), name=c["name"] + "+")
        d["params"]["n"] += 1
        if "budget" in d["params"]:
            d["params"]["budget"] += 1
        d["time"] = 600
        more.append(d)
    return cs + more

TB = {"large trees": "chains up to 40 deep, directories up to 64 wide, combs and complete trees up to 250 files, names up to 215 bytes with paths beyond PATH_MAX, all dimensions symbolic, fixed entry order", "trees": "every ordered tree of the given number of files, directories (and links where stated) below one or two roots", "descriptors": "limits down to the documented minimum", "schedules": "with background threads, requests complete in any order (first decisions symbolic, then first-in first-out)"}
NAMES = ["bfs", "dfs", "ids", "eds"]

@prop("C01", dict(TB, size="4 files below the root (thorough: 5-6)"), ALL)
def c01(tier):
    cs = []
    th = tier != "quick"
    for s in range(4):
        cs.append(T(f"{NAMES[s]}", n=5 if th else 4, strat=s))
        cs.append(T(f"{NAMES[s]}-dt", n=3, strat=s, dt=1))
        cs.append(T(f"{NAMES[s]}-post", n=4, strat=s, post=1))
        cs.append(T(f"{NAMES[s]}-roots", n=3, strat=s, roots=2, same=1))
        cs.append(T(f"{NAMES[s]}-chunk", n=4, strat=s, chunk=1, dt=2, statx=0))
        cs.append(T(f"{NAMES[s]}-j2", n=3, strat=s, threads=2, budget=6, workers=2))
        cs.append(T(f"{NAMES[s]}-j3-stat", n=3, strat=s, threads=3, budget=4, action=3, workers=2))
        cs.append(T(f"{NAMES[s]}-j2-dt-post", n=2, strat=s, threads=2, budget=6, dt=1, post=1))
        cs.append(T(f"{NAMES[s]}-dup", n=5, strat=s, names=2))
        cs.append(T(f"{NAMES[s]}-dup-j2", n=4, kinds=2, strat=s, names=2, threads=2, budget=3))
    for rn in range(1, 5):
        cs.append(T(f"root{rn}", n=3, rootname=rn))
        cs.append(T(f"names{rn}", n=3, names=1, perm=2 * (rn - 1), strat=rn - 1))
    for s in range(4):
        cs.append(B(f"{NAMES[s]}-chain", strat=s, shape=0, hi=40))
        cs.append(B(f"{NAMES[s]}-wide", strat=s, shape=1, hi=64))
        cs.append(B(f"{NAMES[s]}-comb", strat=s, shape=2, w=4, hi=20))
        cs.append(B(f"{NAMES[s]}-full", strat=s, shape=3, w=3, hi=6))
        cs.append(B(f"{NAMES[s]}-long", strat=s, shape=0, len=192, symlen=24, lo=20, hi=20))
        cs.append(B(f"{NAMES[s]}-wide-j3", strat=s, shape=1, lo=40, hi=64, threads=3, budget=2))
        cs.append(B(f"{NAMES[s]}-comb-j3", strat=s, shape=2, w=3, lo=10, hi=14, threads=3, budget=2))
    cs.append(T("bfs-s", n=4, sort=1, perm=2))
    cs.append(T("bfs-s-names", n=4, sort=1, perm=1, names=1))
    cs.append(T("bfs-s-j2", n=3, sort=1, perm=2, threads=2, budget=6))
    return cs

@prop("C02", TB, ALL)
def c02(tier):
    cs = []
    for s in range(4):
        for perm in (1, 2):
            cs.append(T(f"{NAMES[s]}-p{perm}-s", n=4, strat=s, sort=1, perm=perm))
            cs.append(T(f"{NAMES[s]}-p{perm}-s-j3", n=3, strat=s, sort=1, perm=perm, threads=3, budget=6))
        cs.append(T(f"{NAMES[s]}", n=4, strat=s, perm=2))
        cs.append(T(f"{NAMES[s]}-post", n=4, strat=s, perm=2, post=1))
        cs.append(T(f"{NAMES[s]}-post-s", n=4, strat=s, perm=2, post=1, sort=1))
        cs.append(T(f"{NAMES[s]}-roots-s", n=3, strat=s, perm=2, sort=1, roots=2))
        cs.append(T(f"{NAMES[s]}-stat-s-j2", n=3, strat=s, sort=1, perm=2, threads=2, budget=6, action=3))
        cs.append(T(f"{NAMES[s]}-post-j2", n=3, strat=s, post=1, threads=2, budget=6))
        for post in (0, 1):
            cs.append(B(f"{NAMES[s]}-p{post}-chain-s", strat=s, post=post, sort=1, perm=2, shape=0, w=2, hi=16))
            cs.append(B(f"{NAMES[s]}-p{post}-wide-s", strat=s, post=post, sort=1, perm=2, shape=1, hi=40))
            cs.append(B(f"{NAMES[s]}-p{post}-full", strat=s, post=post, perm=1, shape=3, w=3, hi=5))
        cs.append(B(f"{NAMES[s]}-wide-s-j3", strat=s, sort=1, perm=2, shape=1, lo=20, hi=40, threads=3, budget=2))
        cs.append(B(f"{NAMES[s]}-comb-s-j3", strat=s, sort=1, perm=2, shape=2, w=3, lo=5, hi=12, threads=3, budget=2))
    return deeper(cs, tier)

@prop("C03", TB, ALL)
def c03(tier):
    cs = []
    for s in range(4):
        for post in (0, 1):
            cs.append(T(f"{NAMES[s]}-{post}-min", n=3, strat=s, post=post, lim=1))
            cs.append(T(f"{NAMES[s]}-{post}-max", n=3, strat=s, post=post, lim=2))
            cs.append(T(f"{NAMES[s]}-{post}-minmax", n=3, strat=s, post=post, lim=3))
            cs.append(T(f"{NAMES[s]}-{post}-prune", n=3, strat=s, post=post, action=1))
            cs.append(T(f"{NAMES[s]}-{post}-quit", n=3, strat=s, post=post, action=2))
        cs.append(T(f"{NAMES[s]}-prune-j2", n=3, strat=s, action=1, threads=2, budget=4))
        cs.append(T(f"{NAMES[s]}-quit-j3", n=3, strat=s, action=2, threads=3, budget=4))
        cs.append(T(f"{NAMES[s]}-min-prune", n=3, strat=s, action=1, lim=1))
        cs.append(T(f"{NAMES[s]}-deep-prune", n=6, kinds=2, strat=s, action=1))
        for post in (0, 1):
            cs.append(T(f"{NAMES[s]}-dup-prune-p{post}", n=5, kinds=2, strat=s, action=1, names=2, post=post))
        cs.append(T(f"{NAMES[s]}-dup-quit", n=4, strat=s, action=2, names=2))
        for post in (0, 1):
            cs.append(T(f"{NAMES[s]}-{post}-prune-2roots", n=3, strat=s, post=post, action=1, roots=2))
            cs.append(T(f"{NAMES[s]}-{post}-quit-2roots", n=3, strat=s, post=post, action=2, roots=2))
            cs.append(T(f"{NAMES[s]}-{post}-lim-2roots", n=3, strat=s, post=post, lim=3, roots=2))
        cs.append(T(f"{NAMES[s]}-deep-max", n=5, kinds=2, strat=s, lim=2))
        cs.append(T(f"{NAMES[s]}-deep-prune-j2", n=4, kinds=2, strat=s, action=1, threads=2, budget=3))
        for post in (0, 1):
            cs.append(B(f"{NAMES[s]}-p{post}-max", strat=s, post=post, shape=0, lo=12, hi=13, lim=2))
            cs.append(B(f"{NAMES[s]}-p{post}-min", strat=s, post=post, shape=0, lo=12, hi=13, lim=1))
            cs.append(B(f"{NAMES[s]}-p{post}-prune", strat=s, post=post, shape=2, w=3, lo=4, hi=5, action=2))
        cs.append(B(f"{NAMES[s]}-prune-wide", strat=s, shape=1, lo=20, hi=20, action=2))
        cs.append(B(f"{NAMES[s]}-max-j3", strat=s, shape=2, w=3, lo=6, hi=6, lim=2, threads=3, budget=1))
        cs.append(B(f"{NAMES[s]}-prune-j3", strat=s, shape=2, w=3, lo=6, hi=6, action=2, threads=3, budget=1))
        for q in (1, 2, 3):
            cs.append(T(f"{NAMES[s]}-quit{q}", n=3, strat=s, action=2, quitform=q))
    return deeper(cs, tier)

@prop("C04", TB, ALL)
def c04(tier):
    cs = []
    for s in range(4):
        for f in (0, 1, 2):
            cs.append(T(f"{NAMES[s]}-f{f}", n=3, kinds=7, strat=s, follow=f, symids=int(f == 2)))
            cs.append(T(f"{NAMES[s]}-f{f}-rootlink", n=2, kinds=7, strat=s, follow=f, rootlink=1))
        cs.append(T(f"{NAMES[s]}-f2-dt", n=2, kinds=7, strat=s, follow=2, dt=1))
        for x in (1, 2):
            cs.append(T(f"{NAMES[s]}-x{x}", n=3, strat=s, xdev=x, symids=1))
    for f in (0, 2):
        cs.append(T(f"j2-f{f}", n=2, kinds=7, follow=f, threads=2, budget=4))
        cs.append(T(f"unique-f{f}", n=2, kinds=7, follow=f, unique=1, symids=1, eargs=["--split-clz"], time=60))
        cs.append(T(f"unique-n3-f{f}", n=3, kinds=7, follow=f, unique=1))
    return deeper(cs, tier)

@prop("C05", TB, ALL)
def c05(tier):
    cs = []
    for s in range(4):
        for e in (1, 2, 3):
            cs.append(T(f"{NAMES[s]}-e{e}", n=3, strat=s, err=e))
            cs.append(T(f"{NAMES[s]}-e{e}-race", n=2, strat=s, err=e, race=1, dt=2))
            cs.append(T(f"{NAMES[s]}-e{e}-post", n=2, strat=s, err=e, post=1))
            cs.append(T(f"{NAMES[s]}-e{e}-j2", n=2, strat=s, err=e, threads=2, budget=4))
            cs.append(T(f"{NAMES[s]}-e{e}-2roots", n=2, strat=s, err=e, roots=2, post=e % 2, race=int(e == 3)))
        for e in (1, 2, 3):
            cs.append(T(f"{NAMES[s]}-dup-many{e}", n=4, strat=s, many=e, names=2, post=e % 2, dt=2 * (e == 3)))
            cs.append(T(f"{NAMES[s]}-many{e}", n=4, strat=s, many=e, nofile=6, dt=2 * (e == 3)))
            cs.append(T(f"{NAMES[s]}-many{e}-j2", n=5 if e == 1 else 4, kinds=2 if e < 3 else 3, strat=s, many=e, nofile=6, threads=2, budget=1, dt=2 * (e == 3)))
        for e in (1, 2):
            cs.append(B(f"{NAMES[s]}-e{e}-chain", strat=s, shape=0, hi=16, err=e))
            cs.append(B(f"{NAMES[s]}-e{e}-wide", strat=s, shape=1, lo=4, hi=24, err=e, post=1))
            cs.append(B(f"{NAMES[s]}-e{e}-comb-j3", strat=s, shape=2, w=3, lo=6, hi=10, err=e, threads=3, budget=1))
        for l in (1, 2):
            for post in (0, 1):
                cs.append(T(f"{NAMES[s]}-later{l}-p{post}", n=4, kinds=2, strat=s, post=post, later=l, dt=2 * (l - 1), action=3 * (l - 1)))
    return deeper(cs, tier)

@prop("C06", TB, ALL)
def c06(tier):
    cs = []
    for s in range(4):
        for nf in (5, 6, 7, 8):
            cs.append(T(f"{NAMES[s]}-l{nf}", n=5, kinds=2, strat=s, nofile=nf))
        cs.append(T(f"{NAMES[s]}-l6-post", n=4, strat=s, nofile=6, post=1, dt=2))
        cs.append(T(f"{NAMES[s]}-l6-j2", n=3, kinds=2, strat=s, nofile=6, threads=2, budget=6))
        cs.append(T(f"{NAMES[s]}-l7-j3", n=3, strat=s, nofile=7, threads=3, budget=6, action=3))
        cs.append(T(f"{NAMES[s]}-em6", n=4, kinds=2, strat=s, emfile=6))
        cs.append(T(f"{NAMES[s]}-many-j2", n=4, kinds=2, strat=s, many=1, nofile=5, threads=2, budget=1))
        cs.append(T(f"{NAMES[s]}-pm", n=4, kinds=2, strat=s, pathmax=6))
        for nf in (5, 8, 20):
            cs.append(B(f"{NAMES[s]}-l{nf}-chain", strat=s, shape=0, lo=2, hi=25, nofile=nf, post=nf % 2))
            cs.append(B(f"{NAMES[s]}-l{nf}-wide", strat=s, shape=1, lo=4, hi=40, nofile=nf))
            cs.append(B(f"{NAMES[s]}-l{nf}-comb-j3", strat=s, shape=2, w=4, lo=5, hi=12, nofile=nf, threads=3, budget=1))
        cs.append(B(f"{NAMES[s]}-l6-long", strat=s, shape=0, len=192, symlen=24, lo=20, hi=20, nofile=6))
    return deeper(cs, tier)

@prop("C07", {"expressions": "all expressions of up to 3-4 primaries from six sets of four (tests, actions, -prune, -quit, -exit, -limit, -exclude, -nohidden), with negation, -a, -o, the comma operator and parentheses at every position", "files": "a fixed tree of four files"}, ALL)
def c07(tier):
    cs = []
    th = tier != "quick"
    for s in range(6):
        cs.append(W(f"s{s}-n2", "expr.c", params={"set": s, "n": 2, "neg": 2, "ops": 6, "paren": 1}, covers=["done"], time=150))
        cs.append(W(f"s{s}-n3", "expr.c", params={"set": s, "n": 3, "neg": 1, "ops": 3}, covers=["done"], time=150))
        cs.append(W(f"s{s}-n3-O0", "expr.c", params={"set": s, "n": 3, "neg": 0, "ops": 3, "level": 0, "paren": 1}, covers=["done"], time=150))
        cs.append(W(f"s{s}-n3-p", "expr.c", params={"set": s, "n": 3, "neg": 0, "ops": 3, "paren": 1}, covers=["done"], time=150))
        cs.append(W(f"s{s}-n4", "expr.c", params={"set": s, "n": 4, "neg": int(th), "ops": 3, "paren": int(th)}, covers=["done"], time=1500 if th else 150, workers=8 if th else 2))
    return cs

@prop("C13", {"trees": "every ordered tree of up to 3 (thorough: 4-5) files, directories and symbolic links (to an outside directory, an outside file, nowhere) below the root", "selection": "everything, a depth range, one symbolic name, all but one name, files only, empty ones", "faults": "one removal fails with a symbolic error code", "schedules": "as for C01"}, ALL)
def c13(tier):
    cs = []
    th = tier != "quick"
    for s in range(4):
        for form in range(8):
            cs.append(T(f"{NAMES[s]}-f{form}", harness="delete.c", n=4 if th else 3, form=form, strat=s, fail=int(form in (0, 5))))
        cs.append(T(f"{NAMES[s]}-dt", harness="delete.c", n=3, form=0, strat=s, dt=1, fail=1))
        cs.append(T(f"{NAMES[s]}-j2", harness="delete.c", n=3, kinds=3, form=5, strat=s, threads=2, fail=1, budget=4))
        cs.append(B(f"{NAMES[s]}-chain", strat=s, shape=0, hi=20, action=1, nofile=8))
        cs.append(B(f"{NAMES[s]}-wide", strat=s, shape=1, hi=40, action=1, err=3 * (s % 2), nofile=20))
        cs.append(B(f"{NAMES[s]}-comb-j3", strat=s, shape=2, w=4, lo=4, hi=10, action=1, threads=3, budget=1, err=3))
        cs.append(T(f"{NAMES[s]}-fd", harness="delete.c", n=4, kinds=2, form=0, strat=s, nofile=6, fail=1))
    for form in (0, 2, 3):
        cs.append(T(f"L-f{form}", harness="delete.c", n=3, form=form, follow=2))
        cs.append(T(f"H-f{form}", harness="delete.c", n=3, form=form, follow=1))
    return cs

def X(name, **kw):
    return T(name, harness="exec.c", **kw)

@prop("C14", {"templates": "command templates with up to 5 (thorough: 6) fully symbolic argument bytes", "trees": "every ordered tree of up to 3 (thorough: 4) files, directories and links below nine spellings of the root", "processes": "started with posix_spawn() or with fork()"}, ALL)
def c14(tier):
    cs = []
    th = tier != "quick"
    for la, lb in ((1, 0), (2, 0), (3, 0), (4, 0), (2, 2), (5, 0)) + (((6, 0), (3, 3)) if th else ()):
        for act in (0, 2):
            cs.append(X(f"tmpl{la}-{lb}-a{act}", n=1, act=act, ta=la, tb=lb, covers=["ran", "done"]))
    for rf in range(9):
        cs.append(X(f"root{rf}", n=3 if th else 2, kinds=7, act=0, root=rf))
    for s in range(4):
        for post in (0, 1):
            cs.append(X(f"{NAMES[s]}-p{post}", n=4 if th else 3, act=0, strat=s, post=post))
        cs.append(X(f"{NAMES[s]}-fork", n=3 if th else 2, act=0, strat=s, softlimit=512))
        cs.append(X(f"{NAMES[s]}-j2", n=2, act=0, strat=s, threads=2, budget=6 if th else 4))
    for act in (0, 1, 2, 3):
        for soft in (0, 512):
            cs.append(X(f"path-a{act}-{soft}", n=1, kinds=1, act=act, pathenv=1, covers=["ran", "notfound"] + (["refused"] if act > 1 else []), softlimit=soft or 1024))
    return cs

@prop("C15", {"trees": "every ordered tree of up to 4 (thorough: 5) files with short and long names", "limits": "every advertised argument-size limit and every lower hidden limit in the interesting range, and a limit on single arguments", "schedules": "as for C01"}, ALL)
def c15(tier):
    cs = []
    th = tier != "quick"
    n = 4 if th else 3
    for soft in (1024, 512):
        cs.append(X(f"big-{soft}", n=n, act=1, big=1, bigmax=160, longnames=1, kinds=1, covers=["split", "done"], softlimit=soft))
        cs.append(X(f"big-dir-{soft}", n=n, act=3, big=1, bigmax=120, longnames=1, kinds=1, covers=["split", "done"], softlimit=soft))
        cs.append(X(f"one-{soft}", n=n + 1, act=1, arglimit=12, longnames=1, kinds=1, covers=["failed", "done"], softlimit=soft))
        cs.append(X(f"one-tree-{soft}", n=n, act=1, arglimit=4, kinds=3, covers=["failed", "done"], softlimit=soft))
        cs.append(X(f"fail-{soft}", n=2, act=1, fail=1, covers=["ran", "failed", "done"], softlimit=soft))
        cs.append(X(f"fail-split-{soft}", n=3, kinds=1, act=1, fail=1, argmax=24, covers=["split", "failed", "done"], softlimit=soft))
    cs.append(X("argmax", n=n, act=1, argmax=80, longnames=1, kinds=1, covers=["split", "done"]))
    cs.append(X("argmax-tree", n=n + 1, act=1, argmax=60, kinds=3, covers=["split", "done"]))
    cs.append(X("argmax-dir", n=n + 1, act=3, argmax=60, kinds=3, covers=["split", "done"]))
    for rf in range(9):
        cs.append(X(f"root{rf}", n=3 if th else 2, kinds=7, act=1, root=rf))
    for s in range(4):
        cs.append(X(f"{NAMES[s]}", n=5 if th else 4, act=1, strat=s, post=s & 1))
        cs.append(X(f"{NAMES[s]}-j2", n=2, act=1, strat=s, threads=2, argmax=20, covers=["split", "done"]))
    return cs

@prop("C16", {"trees": "every ordered tree of up to 4 (thorough: 5) files, directories and links below nine spellings of the root, and pairs of roots", "processes": "started with posix_spawn() or with fork()", "faults": "one command fails or cannot start; the roots' directory cannot be opened; few descriptors"}, ALL)
def c16(tier):
    cs = []
    th = tier != "quick"
    for act in (2, 3):
        for rf in range(9):
            for post in (0, 1):
                cs.append(X(f"root{rf}-a{act}-p{post}", n=3 if th else 2, kinds=7, act=act, root=rf, post=post))
                if rf != 4:
                    for two in (1, 2, 3, 4, 6):
                        cs.append(X(f"root{rf}-two{two}-a{act}-p{post}", n=3 if th else 2, kinds=3, act=act, root=rf, post=post, two=two))
        for s in range(4):
            for post in (0, 1):
                cs.append(X(f"{NAMES[s]}-a{act}-p{post}", n=5 if th else 4, act=act, strat=s, post=post))
                cs.append(X(f"{NAMES[s]}-a{act}-p{post}-fork", n=3, act=act, strat=s, post=post, softlimit=512))
            cs.append(X(f"{NAMES[s]}-a{act}-j2", n=3, act=act, strat=s, threads=2, budget=3))
            cs.append(X(f"{NAMES[s]}-a{act}-wdfail", n=2, act=act, strat=s, root=6, two=2, wdfail=1))
            cs.append(X(f"{NAMES[s]}-a{act}-dt", n=3, kinds=7, act=act, strat=s, dt=1))
        for post in (0, 1):
            cs.append(X(f"fd-a{act}-p{post}", n=4, kinds=2, act=act, post=post, nofile=9))
        for soft in (1024, 512):
            cs.append(X(f"fail-a{act}-{soft}", n=2, act=act, fail=1, covers=["ran", "failed", "done"], softlimit=soft))
            if act == 2:
                cs.append(X(f"self-{soft}", n=3, act=2, selfexe=1, softlimit=soft))
    return cs

@prop("C17", {"answers": "every sequence of up to three (thorough: four) of eight answers, ending anywhere in end of file", "faults": "one command fails with any status or signal, or cannot start with any of four errors"}, ALL)
def c17(tier):
    cs = []
    n = 2 if tier == "quick" else 3
    for soft in (1024, 512):
        for a in (4, 5):
            cs.append(X(f"ok{a}-{soft}", n=n, kinds=1, act=a, softlimit=soft))
            cs.append(X(f"ok{a}-fail-{soft}", n=1, kinds=1, act=a, softlimit=soft, fail=1))
        for a in (0, 1, 2, 3):
            cs.append(X(f"fail{a}-{soft}", n=n, act=a, fail=1, covers=["ran", "failed", "done"], softlimit=soft))
    return cs

def F(name, **kw):
    return T(name, harness="fmt.c", **kw)

@prop("C18", {"formats": "up to 2 (after an escape character: 3) symbolic bytes, the first fully symbolic and the rest over the documented alphabet plus invalid characters; up to 3 flag, width and precision characters before six directives", "attributes": "every value of each numeric attribute and mode; every second of seven days with every nanosecond", "roots": "sixteen spellings"}, ALL)
def c18(tier):
    cs = []
    vi = ["valid", "invalid"]
    for pre, n, al in ((0, 1, 0), (0, 2, 0), (1, 1, 0), (1, 2, 1), (2, 1, 0), (2, 2, 2), (2, 3, 2), (3, 1, 0), (3, 2, 1), (6, 2, 1)):
        cs.append(F(f"fmt-p{pre}-n{n}", mode=0, pre=pre, len=n, alpha=al, covers=vi))
    for post in range(1, 7):
        for n in (1, 2, 3):
            cs.append(F(f"flags-n{n}-q{post}", mode=0, pre=1, len=n, flags=1, post=post, covers=["valid"] if n == 1 and post in (1, 2, 5) else vi))
    for d in range(11):
        for form in ((0, 1, 2) if d != 8 else range(6)):
            cs.append(F(f"num{d}-{form}", mode=1, dir=d, form=form))
    cs.append(F("types", mode=2))
    cs.append(F("modes", mode=2, symmode=1))
    cs.append(F("paths", mode=3))
    for form in range(11):
        cs.append(F(f"time{form}", mode=4, form=form, workers=4 if form == 0 else 1))
    cs.append(F("names", mode=5))
    cs.append(W("long-links", "link.c", params={"mode": 0}, covers=["done"], time=100))
    return cs

OOM = OS + ["malloc.c"]
@prop("C19", {"commands": "31 command lines over a fixed tree, some with background threads (queue model, first scheduling decisions symbolic)", "faults": "any one allocation fails, or every one from some point on"}, ALL)
def c19(tier):
    cs = []
    for c in range(31):
        for p in (0, 1):
            cs.append(W(f"cmd{c}-p{p}", "oom.c", models=OOM, params={"cmd": c, "persist": p, "lines": int(c not in (6, 8, 12, 16, 20)), "numeric": int(c == 12)}, covers=["nofail", "reported"]))
            if c in (0, 1, 4, 6, 7):
                cs.append(W(f"more{c}-p{p}", "oom.c", models=OOM, params={"cmd": c, "persist": p, "lines": int(c != 6), "more": 8}, covers=["nofail", "reported"]))
                cs.append(W(f"j2-{c}-p{p}", "oom.c", models=IOQ + ["malloc.c"], exclude=["ioq.c"], defs=["-DBUDGET"], params={"cmd": c, "persist": p, "lines": int(c != 6), "threads": 2, "budget": 3}, covers=["nofail", "reported"]))
    return cs

def O(name, **kw):
    return T(name, harness="out.c", **kw)

@prop("C20", {"names": "every name of 1-3 bytes", "failures": "every output position at which the standard output or a file stops accepting data, at once or when flushed, and a failing close, with four error codes", "sharing": "three actions over eight names of five files", "listing": "every value of each field"}, ALL)
def c20(tier):
    cs = []
    for a in range(11):
        for n in (1, 2, 3) if a == 3 else (1, 2):
            cs.append(O(f"name-a{a}-n{n}", mode=0, action=a, len=n))
    for c in range(9):
        cs.append(O(f"fail{c}", mode=1, cmd=c, covers=["failed", "fits"]))
    cs.append(O("share", mode=2))
    for f in range(9):
        cs.append(O(f"ls{f}", mode=3, field=f, covers=["done"] + (["recent", "old"] if f == 8 else [])))
    cs.append(O("ls2-posix", mode=3, field=2, posix=1))
    cs.append(W("long-links", "link.c", params={"mode": 2}, covers=["done"], time=100))
    return cs

@prop("C21", {"names": "every byte between every pair of eight prefixes and seven suffixes, and all strings of up to 2 (thorough: 3) out of 20 bytes of different kinds"}, ALL)
def c21(tier):
    cs = []
    th = tier != "quick"
    for p in range(8):
        for q in range(7):
            cs.append(O(f"arg-p{p}-q{q}", mode=4, pre=p, post=q, len=1))
        cs.append(O(f"tree-p{p}", mode=4, pre=p, len=1, how=1))
        cs.append(O(f"arg-p{p}-n2", mode=4, pre=p, len=2, alpha=1))
        cs.append(O(f"tree-p{p}-n2", mode=4, pre=p, len=2, how=1, alpha=1))
    if th:
        cs.append(O("arg-n3", mode=4, len=3, alpha=1))
    cs.append(O("int-n1", mode=4, len=1, how=2))
    cs.append(O("arg-tty", mode=4, len=1, tty=1))
    return cs

MN = ["match", "nomatch"]
@prop("C22", {"patterns": "up to 2-3 (thorough: 4) symbolic characters from the pattern alphabet between nine prefixes and eight suffixes; regular expressions of literals, dots, repetition and alternation", "names": "1-3 symbolic characters, and link targets of up to 127 bytes with any reported size"}, ALL)
def c22(tier):
    cs = []
    th = tier != "quick"
    def G(name, **kw):
        return T(name, harness="pat.c", mode=0, covers=["done"] if name[0] == "b" else MN, time=300 if th else 100, **kw)
    for t in range(8):
        cs.append(G(f"t{t}-1-1", test=t, plen=1, nlen=1, pre=7 if t in (2, 3, 4, 5) else 0))
        cs.append(G(f"t{t}-2-1", test=t, plen=2, nlen=1, pre=2 if t in (2, 3, 4, 5) else 0, alpha=1))
        cs.append(G(f"t{t}-2-2", test=t, plen=2, nlen=2, pre=2 if t in (2, 3, 4, 5) else 0, alpha=1))
        cs.append(G(f"t{t}-3-2", test=t, plen=3, nlen=2, pre=2 if t in (2, 3, 4, 5) else 0, alpha=0 if th else 1))
        if th:
            cs.append(G(f"t{t}-4-3", test=t, plen=4, nlen=3, pre=2 if t in (2, 3, 4, 5) else 0, alpha=1))
    for p in (3, 4, 5, 6, 8):
        for q in range(1, 7):
            for t in (0,) if q == 6 else (0, 1):
                cs.append(G(f"b{t}-p{p}-q{q}", test=t, plen=1, nlen=1 if q in (2, 6) or p in (3, 8) else 2, pre=p, post=q))
    for k in (1, 2):
        for path in (0, 1):
            cs.append(T(f"root{path}-{k}", harness="pat.c", mode=1, plen=k, path=path, covers=MN))
    for ext in (0, 1):
        for ic in (0, 1):
            for pre in (1, 2, 3, 4) if ext else (1, 2, 3):
                cs.append(T(f"regex-e{ext}-i{ic}-p{pre}", harness="pat.c", mode=2, ext=ext, icase=ic, pre=pre, plen=4 if th else 3, nlen=3 if th else 2, how=ic, covers=["done"], time=300 if th else 100))
    cs.append(W("long-links", "link.c", params={"mode": 1}, covers=["done"], time=100))
    return cs

@prop("C24", {"threads": "1-2 background threads and the submitting thread", "interleavings": "all schedules with at most 2 (thorough: 3) preemptions at atomic and lock operations, sequentially consistent, with happens-before race detection that respects the C11 orderings given", "requests": "2-4 requests of every kind, queue depths 1-4, cancellation at any step"}, ALL)
def c24(tier):
    cs = []
    deep = tier != "quick"
    def add(mode, mix, thr, n, depth, pre, races):
        cs.append(W(f"m{mode}-x{mix}-t{thr}-n{n}-d{depth}-p{pre}" + ("-races" if races else ""), "ioq.c", models=OS + ["malloc.c"], sched=True, params={"n": n, "depth": depth, "threads": thr, "mix": mix, "mode": mode},
                    covers=["done"], eargs=["--races"] if races else ["--dedup"], preempt=pre, time=900 if deep else 100))
    for mode in range(4):
        for mix in range(4):
            for d in (1, 2, 4) if deep else (1 + (mode + mix) % 2,):
                add(mode, mix, 1, 3 + deep, d, (2 if mode == 1 else 3) + deep, False)
                add(mode, mix, 2, 2 + deep, d, (2 if mode in (0, 3) and mix % 2 else 1) + deep, False)
            add(mode, mix, 1, 2, 2, (1 if mode == 1 else 2) + deep, True)
    return cs

@prop("C25", {"history": "up to 4 (thorough: 5) registrations and removals in any order on two signals and the exit hooks, with any flags, then one or two deliveries", "interruption": "one signal arriving at any atomic or lock operation of the interrupted thread, or handled by another thread with up to 2 preemptions", "signals": "SIGWINCH, SIGUSR1; for resetting, a failure to hook any one of signals 1-31"}, ALL)
def c25(tier):
    deep = tier != "quick"
    cs = []
    S = dict(models=OS + ["malloc.c"], sched=True, max_inst=80000, time=100 if not deep else 900)
    cs.append(W("seq", "sig.c", params={"mode": 0, "n": 4 + deep, "sigs": 3}, covers=["done", "died", "delivered"], workers=3, **S))
    cs.append(W("seq-1", "sig.c", params={"mode": 0, "n": 5 + deep, "sigs": 1}, covers=["done", "delivered"], **S))
    cs.append(W("irq", "sig.c", params={"mode": 1, "n": 3 + deep, "sigs": 2}, covers=["done", "irq"], preempt=1, eargs=["--races"], **S))
    cs.append(W("irq-exit", "sig.c", params={"mode": 1, "n": 2 + deep, "sigs": 3}, covers=["done", "irq", "died"], preempt=1, eargs=["--races"], **S))
    cs.append(W("thread", "sig.c", params={"mode": 2, "n": 3 + deep, "sigs": 1}, covers=["done", "irq"], preempt=2, eargs=["--races"], **S))
    cs.append(W("thread-deep", "sig.c", params={"mode": 2, "n": 4 + deep, "sigs": 1}, covers=["done", "irq"], preempt=3, eargs=["--dedup"], **S))
    cs.append(W("fatal", "sig.c", params={"mode": 4}, covers=["died", "fault", "harmless"], **S))
    cs.append(W("writers", "sig.c", params={"mode": 5}, covers=["done"], preempt=2, eargs=["--races"], **S))
    cs.append(W("reset", "sig.c", params={"mode": 3, "n": 2 + deep, "sigs": 3}, covers=["done", "reset"], **S))
    return cs

@prop("C26", {"names": "a leaf name of one or two fully symbolic bytes, below directories with hidden and visible names", "roots": "16 spellings of the starting path, with trailing slashes and dots", "expressions": "-hidden, -nohidden and -exclude in nine positions, with every strategy and with background threads"}, ALL)
def c26(tier):
    cs = []
    for form in range(9):
        for s in range(4):
            if tier != "quick" or s == form % 4 or form == 1:
                cs.append(T(f"f{form}-{NAMES[s]}", harness="hid.c", form=form, strat=s, covers=["done"] + (["printed"] if form != 2 else [])))
        cs.append(T(f"f{form}-j2", harness="hid.c", form=form, threads=2, budget=2, strat=0))
    return cs

@prop("C28", {"arguments": "every date from 1800 to 2199 at the turns of February and of the year every month of ten years (in the longer forms, three months of four years) between 0000 and 9999 in every documented form, separator and time zone, with any one field (day, hour, minute, second, zone hour, zone minute) symbolic, @seconds with up to 3 (thorough: 5) or 19 symbolic digits, and every such string with one byte replaced, inserted or the tail cut off, the byte fully symbolic", "time zone": "local times 5:45 and one hour of daylight saving time away from UTC", "file times": "any 64-bit seconds, any nanoseconds"}, ALL)
def c28(tier):
    cs = []
    th = tier != "quick"
    D = dict(time=100 if not th else 900)
    for f in range(9):
        for t in range(8):
            if th or t == f % 8 or (f == 0 and t < 8):
                cs.append(W(f"form{f}-t{t}", "date.c", params={"mode": 0, "form": f, "test": t}, covers=["printed", "skipped"], **D))
        for e in range(3):
            cs.append(W(f"edit{f}-{e}", "date.c", params={"mode": 3, "form": f, "edit": e, "test": (f + e) % 8}, covers=["rejected"], **D))
    for y in range(5):
        for c in (1800, 1900, 2000, 2100):
            cs.append(W(f"year{y}-{c}", "date.c", params={"mode": 1, "yr": y, "test": y, "from": c}, covers=["printed", "skipped"], **D))
    for l in range(1, 4 if not th else 6):
        cs.append(W(f"epoch{l}", "date.c", params={"mode": 2, "len": l, "test": l}, covers=["rejected", "printed", "skipped"], **D))
    cs.append(W("epoch-big", "date.c", params={"mode": 2, "big": 19, "test": 4}, covers=["rejected", "printed", "skipped"], **D))
    return cs

@prop("C29", {"arguments": "starting points in 14 layouts (before, after and inside expressions, with -f and around --), each one of up to 18 spellings, including names that look like operators or options", "lists": "every list of up to 5 (thorough: 6) bytes from a seven-byte alphabet with NUL, newline, slash and dash, from a file or standard input, with read errors at every position"}, ALL)
def c29(tier):
    cs = []
    th = tier != "quick"
    for l in range(14):
        for s in (0, 1):
            if s == 0 or th or l in (0, 4):
                cs.append(W(f"args{l}-s{s}", "roots.c", params={"mode": 0, "lay": l, "strat": s}, covers=["printed"] + ["missing"] * (l not in (11, 12)), time=100 if not th else 900))
    for m in range(1, 6):
        for l in range(0, (6 if m == 1 else 5 if m == 2 else 3) + th):
            cs.append(W(f"list{m}-l{l}", "roots.c", params={"mode": m, "len": l, "strat": (m + l) % 2}, covers=["rejected" if m > 3 else "done"], time=100 if not th else 900))
    return cs

@prop("C30", {"files": "every mode and link count, every file type, links to every type, broken links and loops, with and without -L", "LS_COLORS": "any subset of the keys for a kind of file set, unset or switched off; up to 2 (thorough: 3) extensions from eight overlapping ones, up to 4 (thorough: 5) from four, with names of up to 4 characters"}, ALL)
def c30(tier):
    cs = []
    th = tier != "quick"
    D = dict(time=100 if not th else 900)
    for k in range(5):
        cs.append(W(f"reg{k}", "color.c", params={"mode": 0, "set": k}, covers=["colored", "plain"], **D))
    for k in range(2):
        cs.append(W(f"dir{k}", "color.c", params={"mode": 1, "set": k}, covers=["colored", "plain"], **D))
    cs.append(W("link", "color.c", params={"mode": 2}, covers=["colored", "plain"], **D))
    cs.append(W("escapes", "color.c", params={"mode": 6, "len": 3 + th}, covers=["done"], **D))
    cs.append(W("special", "color.c", params={"mode": 3}, covers=["colored", "plain"], **D))
    for k in range(8):
        cs.append(W(f"ext{k}", "color.c", params={"mode": 4, "n": 2 + th, "first": k, "len": 3 + th}, covers=["colored", "plain"], **D))
    for k in range(4):
        cs.append(W(f"ext-lower{k}", "color.c", params={"mode": 4, "n": 3, "pool": 4, "first": k, "len": 3 + th}, covers=["colored", "plain"], **D))
        for l in range(4):
            if l == 0 or th:
                cs.append(W(f"ext-four{k}-{l}", "color.c", params={"mode": 4, "n": 4 + th, "pool": 4, "first": k, "last": l, "len": 3}, covers=["colored", "plain"], **D))
        cs.append(W(f"ext-same{k}", "color.c", params={"mode": 4, "n": 2 + th, "same": 1, "pool": 4, "first": k, "len": 2 + th}, covers=["colored", "plain"], **D))
    for k in range(6):
        cs.append(W(f"text{k}", "color.c", params={"mode": 5, "set": k}, covers=["done"], **D))
    return cs

@prop("C31", {"files": "files, directories and links (to a file, to a directory, dangling), as arguments and one or two levels down, with and without -L, with and without /proc", "attributes": "up to two extended attributes of three names with empty and non-empty values, access lists of 3-5 entries of any kind in any place, default lists of 0-3 entries, three capability sets", "faults": "any one of seven error codes for every request on the file"}, ALL)
def c31(tier):
    return [W(f"{n}", "attr.c", params={"test": k}, covers=["printed", "skipped"] + ["failed"] * (k < 4), time=200 if tier == "quick" else 900, workers=2) for k, n in enumerate(("xattr", "xattrname", "acl", "capable", "ls"))]

@prop("C27", {"arguments": "every string of up to 4 characters from digits, signs, a space, a dot and unit letters, and numbers of 19-20 symbolic digits with every unit", "attributes": "the tested attribute ranges over its type"}, ALL)
def c27(tier):
    cs = []
    th = tier != "quick"
    for k in range(11):
        cov = ["rejected"] * (k != 9) + ["printed"] * (k != 9) + ["skipped"] * (k not in (7, 8, 10))
        for l in range(1, (5 if k == 2 else 4) if not th else 6):
            cs.append(W(f"k{k}-l{l}", "num.c", params={"kind": k, "len": l}, covers=cov, time=100 if not th else 900))
        if k != 9:
            for n, fix in ((10, 5), (19, 12), (20, 17)) + (((19, 0), (20, 0)) if th else ()):
                cs.append(W(f"k{k}-big{n}-{fix}", "num.c", params={"kind": k, "big": n, "fix": fix}, covers=[], time=100 if not th else 900))
    return cs
