"""Driver: regenerates the encoding from /repo, runs the executor, replays counterexamples."""
import os, sys, json, subprocess, hashlib, shutil, tempfile, time, concurrent.futures as cf, threading, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BFS_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
ENGINE = os.path.join(BUILD, "bsym")
NCPU = max(1, min(8, os.cpu_count() or 1))
CLANG, LLINK, OPT = "clang-18", "llvm-link-18", "opt-18"

STRICT = bool(os.environ.get("BSYM_STRICT"))

class CheckError(Exception):
    pass

def deep_stack():  # expressions can be deep
    import resource
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30 if hard == resource.RLIM_INFINITY else min(hard, 1 << 30), hard))
    except Exception:
        pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return r.returncode, r.stdout

def must(cmd, what, **kw):
    rc, out = run(cmd, **kw)
    if rc != 0:
        raise CheckError(f"{what} failed: {' '.join(cmd)}\n{out[-4000:]}")
    return out

def engine_hash():
    h = hashlib.sha256()
    d = os.path.join(VERIF, "engine")
    for f in sorted(os.listdir(d)):
        h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "bsym.hash")
    h = engine_hash()
    if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    d = os.path.join(VERIF, "engine")
    inc = must(["llvm-config-18", "--includedir"], "llvm-config").strip()
    tmp = ENGINE + f".tmp{os.getpid()}"
    objs = []
    with cf.ThreadPoolExecutor(4) as ex:
        futs = []
        for s in ("expr.cpp", "solver.cpp", "blast.cpp", "main.cpp"):
            o = os.path.join(BUILD, f"{s}.{os.getpid()}.o")
            objs.append(o)
            futs.append(ex.submit(must, ["clang++-18", "-O2", "-std=c++17", "-fno-rtti", "-w", "-I" + inc, "-c", os.path.join(d, s), "-o", o], "engine build"))
        for f in futs:
            f.result()
    must(["clang++-18", "-o", tmp] + objs + ["-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "/usr/lib/libminisat.a"], "engine link")
    os.rename(tmp, ENGINE)
    for o in objs:
        os.unlink(o)
    open(stamp, "w").write(h)

CPP = ["-D_GNU_SOURCE", "-DBFS_USE_TARGET_CLONES=false", f"-I{VERIF}/lib", f"-I{VERIF}/gen", f"-I{REPO}/src"]
REPO_CPP = CPP + ["-include", f"{REPO}/src/prelude.h"]

class Build:
    """One build of the repo's sources for this run, in a scratch directory."""
    def __init__(self, scratch):
        self.dir = scratch
        self.lock = threading.Lock()
        self.sources = sorted(f for f in os.listdir(f"{REPO}/src") if f.endswith(".c"))
        self.bc = {}
        self.nat = {}
        self.linked = {}
        self.natlinked = {}

    def compile_bc(self):
        d = f"{self.dir}/bc"
        os.makedirs(d, exist_ok=True)
        def one(f):
            o = f"{d}/{f[:-2]}.bc"
            must([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-std=c17", "-w", "-pthread", "-fno-omit-frame-pointer",
                  "-D__SANITIZE_ADDRESS__=1"] + REPO_CPP + (["-Dmain=bfs_main"] if f == "main.c" else []) + ["-emit-llvm", "-c", f"{REPO}/src/{f}", "-o", o], "compiling " + f)
            return f, o
        with cf.ThreadPoolExecutor(NCPU) as ex:
            self.bc = dict(ex.map(one, self.sources))

    def harness_files(self, case):
        fs = [f"{VERIF}/harness/{case['harness']}"]
        fs += [f"{VERIF}/lib/{m}" for m in case.get("models", [])]
        return fs

    def key(self, case):
        return (case["harness"], tuple(case.get("models", [])), tuple(case.get("exclude", [])), tuple(case.get("defs", [])), case.get("entry", "harness"), case.get("sched", False))

    def link_bc(self, case):
        k = self.key(case)
        with self.lock:
            if k in self.linked:
                return self.linked[k]
            n = f"{self.dir}/h{len(self.linked)}"
            mods = []
            for i, f in enumerate(self.harness_files(case) + [f"{VERIF}/lib/libc.c"]):
                o = f"{n}.{i}.bc"
                inc = REPO_CPP if "/harness/" in f else CPP
                must([CLANG, "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-std=gnu17", "-w", "-pthread"] + (["-fno-builtin"] if "/lib/" in f else []) + list(case.get("defs", [])) + inc +
                     ["-emit-llvm", "-c", f, "-o", o], "compiling " + f)
                mods.append(o)
            ex = set(case.get("exclude", []))
            libmods = [self.bc[f] for f in self.sources if f not in ex]
            out = f"{n}.bc"
            must([LLINK] + mods + libmods + ["-o", f"{n}.l.bc"], "llvm-link")
            entry = case.get("entry", "harness")
            must([ENGINE, "--redirect", f"{n}.l.bc", f"{n}.r.bc"], "redirect")
            must([OPT, "-passes=internalize,globaldce,function(sroa,simplifycfg,instsimplify,early-cse,simplifycfg,dce),globaldce",
                  f"-internalize-public-api-list={entry}", f"{n}.r.bc", "-o", out], "opt")
            self.linked[k] = out
            return out

    def native(self, case):
        k = self.key(case)
        with self.lock:
            if k in self.natlinked:
                return self.natlinked[k]
            n = f"{self.dir}/n{len(self.natlinked)}"
            os.makedirs(n)
            flags = ["gcc", "-O1", "-g", "-std=gnu17", "-w", "-pthread", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-DSYM_NATIVE", "-fsanitize=address", "-fno-builtin"]
            hobjs = []
            sched = case.get("sched", False)
            san = [] if sched else ["-fsanitize=address"]
            rflags = flags
            if sched:
                flags = [x for x in flags if x != "-fsanitize=address"] + ["-DSYM_SCHED"]
                rflags = [CLANG, "-O1", "-g", "-std=gnu17", "-w", "-pthread", "-D_FORTIFY_SOURCE=0", "-DSYM_NATIVE", "-fno-builtin", "-fsanitize=thread", "-D__SANITIZE_THREAD__=0", "-D__SANITIZE_ADDRESS__=1"]
            hf = self.harness_files(case) + ([f"{VERIF}/lib/mthread.c"] if sched else [])
            for i, f in enumerate(hf):
                o = f"{n}/h{i}.o"
                inc = REPO_CPP if "/harness/" in f else CPP
                must((rflags if "/harness/" in f else flags) + list(case.get("defs", [])) + inc + ["-c", f, "-o", o], "native " + f)
                hobjs.append(o)
            ro = f"{n}/replay.o"
            must(flags + CPP + ["-c", f"{VERIF}/lib/replay.c", "-o", ro], "native replay.c")
            rts = [ro]
            if sched:
                rts.append(f"{n}/tsched.o")
                must(flags + CPP + ["-c", f"{VERIF}/lib/tsched.c", "-o", rts[-1]], "native tsched.c")
            ex = set(case.get("exclude", []))
            objs = []
            def one(f):
                o = f"{n}/{f[:-2]}.o"
                must(rflags + REPO_CPP + (["-Dmain=bfs_main"] if f == "main.c" else []) + ["-c", f"{REPO}/src/{f}", "-o", o], "native " + f)
                return o
            with cf.ThreadPoolExecutor(NCPU) as exr:
                objs = list(exr.map(one, [f for f in self.sources if f not in ex]))
            # redirect modelled functions
            syms = set()
            for o in hobjs:
                for l in must(["nm", "--defined-only", o], "nm").splitlines():
                    s = l.split()[-1]
                    if s.startswith("mdl_") and l.split()[-2] in "TtDdBbRrVvWw":
                        syms.add(s[4:])
            for i, m in enumerate(({x + "64": x for x in syms}, {"__isoc23_" + x: x for x in syms}, {x: "mdl_" + x for x in syms})):
                rf = f"{n}/redef{i}"
                open(rf, "w").write("".join(f"{a} {b}\n" for a, b in m.items() if a not in syms or i == 2))
                for o in objs + hobjs:
                    must(["objcopy", f"--redefine-syms={rf}", o], "objcopy")
            exe = f"{n}/replay"
            must(["gcc"] + san + ["-pthread", "-o", exe] + rts + hobjs + objs + ["-lrt"], "native link")
            self.natlinked[k] = exe
            return exe

def run_engine(bc, case, outdir, tlimit):
    os.makedirs(outdir)
    cmd = [ENGINE, bc, "--entry", case.get("entry", "harness"), "--out", outdir, "--time", str(tlimit),
           "--workers", str(case.get("workers", 1)), "--errors", str(case.get("errors", 3)),
           "--preempt", str(case.get("preempt", 2)), "--max-inst", str(case.get("max_inst", 20000000)),
           "--mem", str(case.get("mem", 3000)), "--solver-timeout", str(case.get("solver_ms", 60000))]
    for k, v in case.get("params", {}).items():
        cmd += ["-p", f"{k}={v}"]
    cmd += case.get("eargs", [])
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=open(outdir + "/log", "w"), stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=deep_stack)
    try:
        p.wait(timeout=tlimit + 90)
        hung = False
    except subprocess.TimeoutExpired:
        hung = True
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    res = {"paths": 0, "forks": 0, "insts": 0, "asserts": 0, "asserts_sym": 0, "pruned": 0, "queries": 0, "cache_hits": 0, "model_hits": 0, "sat": 0, "unsat": 0,
           "unknown": 0, "solver_s": 0.0, "timeout": 0, "killed": 0, "minisat": 0, "z3": 0, "crosschecked": 0, "merged": 0, "max_query_s": 0.0, "covers": {}, "functions": set(), "incomplete": [], "wall": time.time() - t0}
    parts = 0
    for f in os.listdir(outdir):
        if f.startswith("part") and f.endswith(".json"):
            try:
                d = json.load(open(f"{outdir}/{f}"))
            except ValueError:
                res["incomplete"].append("unreadable part")
                continue
            parts += 1
            for k in ("paths", "forks", "insts", "asserts", "asserts_sym", "pruned", "queries", "cache_hits", "model_hits", "sat", "unsat", "unknown", "solver_s", "killed", "minisat", "z3", "crosschecked", "merged"):
                res[k] += d[k]
            res["max_query_s"] = max(res["max_query_s"], d["max_query_s"])
            res["timeout"] |= d["timeout"]
            for k, v in d["covers"].items():
                res["covers"][k] = res["covers"].get(k, 0) + v
            res["functions"].update(d["functions"])
            res["incomplete"] += d["incomplete"]
    if hung:
        res["timeout"] = 1
        res["incomplete"].append("engine killed at the time limit")
    elif parts == 0:
        if STRICT:
            raise CheckError(f"engine produced no result for {case['name']}: rc={p.returncode}\n" + open(outdir + "/log").read()[-2000:])
        res["timeout"] = 1
        res["incomplete"].append(f"the executor ended without a result: rc={p.returncode}")
    errs = []
    ef = outdir + "/errors.jsonl"
    if os.path.exists(ef):
        for l in open(ef):
            try:
                errs.append(json.loads(l))
            except ValueError:
                pass
    res["errors"] = errs
    return res

def replay(exe, case, inp, limit=60):
    """Returns (reproduced, text)."""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0", LC_ALL="C.UTF-8", TZ="UTC")
    cmd = [exe, inp] + [f"{k}={v}" for k, v in case.get("params", {}).items()]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", "timed out"

def check(prop, level, cases, tier, seed, known, statement_bounds, assumptions, budget):
    t0 = time.time()
    build_engine()
    scratch = tempfile.mkdtemp(prefix=f"bsym-{prop}-")
    repdir = f"{VERIF}/evidence/replay/{prop}"
    shutil.rmtree(repdir, ignore_errors=True)
    viol, knownhits, notes = [], [], []
    results = {}
    try:
        b = Build(scratch)
        b.compile_bc()
        broken = {}
        for c in cases:
            if b.key(c) in broken:
                continue
            try:
                b.link_bc(c)
            except CheckError as e:
                if STRICT:
                    raise
                broken[b.key(c)] = 1
                notes.append(f"{c['harness']}: cannot be built against this tree: {str(e)[-600:]}")
        nall = len(cases)
        cases = [c for c in cases if b.key(c) not in broken]
        slots = threading.Semaphore(NCPU)
        slotlock = threading.Lock()
        def one(ic):
            i, c = ic
            w = min(c.get("workers", 1), NCPU)
            with slotlock:
                for _ in range(w):
                    slots.acquire()
            try:
                left = budget - (time.time() - t0)
                tl = min(c.get("time", budget), left)
                if tl < 3:
                    return c["name"], None
                return c["name"], run_engine(b.link_bc(c), c, f"{scratch}/out{i}", tl)
            finally:
                for _ in range(w):
                    slots.release()
        with cf.ThreadPoolExecutor(32) as ex:
            for name, r in ex.map(one, list(enumerate(cases))):
                results[name] = r
        byname = {c["name"]: c for c in cases}
        assert len(byname) == len(cases), "duplicate case names"
        for name, r in results.items():
            c = byname[name]
            if r is None:
                notes.append(f"{name}: not run (time budget)")
                continue
            for e in r["errors"]:
                if e["kind"] == "model":
                    notes.append(f"{name}: engine could not continue: {e['msg']} at {e['where']}")
                    r["incomplete"].append("model: " + e["msg"])
                    continue
                exe = b.native(c)
                rc, out = replay(exe, c, e["inputs"], 20 if e["kind"] == "hang" else 60)
                ok = False
                if e["kind"] == "hang":
                    ok = rc == "timeout" or rc == -14
                elif e["kind"] == "deadlock":
                    ok = rc == "timeout" or rc == -14 or (rc == 42 and "deadlock" in out)
                else:
                    ok = rc not in (0, 43, 44, "timeout")
                if not ok and not STRICT:
                    # Only counterexamples that the natively built code reproduces are reported.
                    notes.append(f"{name}: counterexample not confirmed by native replay (rc={rc}): {e['kind']} {e['msg']} at {e['where'].split(' < ')[0]}")
                    r["incomplete"].append("unconfirmed counterexample: " + e["msg"])
                    continue
                if not ok:
                    raise CheckError(f"{name}: counterexample did not reproduce natively (rc={rc}): {e['kind']} {e['msg']} at {e['where']}\nnotes: {e['notes']}\ninputs:\n{open(e['inputs']).read()[:3000]}\nnative output:\n{out[-3000:]}")
                os.makedirs(repdir, exist_ok=True)
                base = f"{repdir}/{name}-{len(os.listdir(repdir))}"
                shutil.copy(e["inputs"], base + ".in")
                with open(base + ".txt", "w") as f:
                    f.write(f"property: {prop}\ncase: {name}\nharness: {c['harness']}\nparams: {c.get('params', {})}\nkind: {e['kind']}\nwhat: {e['msg']}\nwhere: {e['where']}\nnotes: {e['notes']}\n\ninputs:\n{open(e['inputs']).read()}\nnative replay (exit {rc}):\n{out[-4000:]}\n")
                hit = None
                for kf in known:
                    if kf["property"] == prop and kf.get("case", name) == name and kf["match"] in e["msg"]:
                        hit = kf
                if hit:
                    knownhits.append(hit)
                else:
                    viol.append((base + ".txt", name, e))
            miss = [x for x in c.get("covers", []) if not r["covers"].get(x)]
            if miss and not r["errors"] and not r["timeout"]:
                if STRICT:
                    raise CheckError(f"{name}: vacuous: never reached {miss}")
                notes.append(f"{name}: never reached {miss}")
            if miss:
                r["incomplete"].append("not reached: " + ",".join(miss))
        nexh = sum(1 for r in results.values() if r is not None and not r["timeout"] and not r["incomplete"])
        agg = lambda k: sum(r[k] for r in results.values() if r)
        funcs = set()
        srcs = "\n".join(open(f"{REPO}/src/{f}", errors="replace").read() for f in os.listdir(f"{REPO}/src"))
        for r in results.values():
            if r:
                funcs |= r["functions"]
        funcs = sorted(f for f in funcs if (f.split(".")[0] + "(") in srcs and not f.startswith("harness"))
        sample = []
        for n, r in sorted(((n, r) for n, r in results.items() if r), key=lambda x: -x[1]["wall"])[:40]:
            if r:
                sample.append({"case": n, "params": byname[n].get("params", {}), "paths": r["paths"], "queries": r["queries"], "solver_s": round(r["solver_s"], 3),
                               "wall_s": round(r["wall"], 2), "covers": r["covers"], "exhausted": not r["timeout"] and not r["incomplete"], "incomplete": r["incomplete"][:5]})
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": level,
            "coverage": {
                "explanation": "Symbolic execution of the LLVM IR of the current /repo sources; every branch, memory access and assertion on symbolic data is decided by a QF_BV solver (bit-blasting + MiniSat; Z3 when MiniSat's budget runs out, and as a cross-check on a sample of the unsat answers). Paths are explored exhaustively within the stated bounds unless a case says otherwise.",
                "symbolic_paths": agg("paths"),
                "rule": "one symbolic path = one distinct feasible path condition executed to completion; paths pruned by assumptions are not counted",
                "samples": sample,
                "assertions_checked": agg("asserts"), "assertions_decided_by_solver": agg("asserts_sym"),
                "state_forks": agg("forks"), "states_merged": agg("merged"), "ir_instructions": agg("insts"),
                "cases": nall, "cases_exhausted": nexh,
                "queries_discharged": agg("queries"), "query_cache_hits": agg("cache_hits"), "model_hits": agg("model_hits"),
                "sat": agg("sat"), "unsat": agg("unsat"), "unknown": agg("unknown"), "decided_by_minisat": agg("minisat"), "decided_by_z3": agg("z3"), "unsat_crosschecked_with_z3": agg("crosschecked"), "solver_s": round(agg("solver_s"), 3),
                "functions_encoded": funcs, "bounds": statement_bounds, "exhaustive": nexh == nall, "notes": notes,
            },
            "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        }
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
        seen = set()
        for k in knownhits:
            if k["text"] not in seen:
                seen.add(k["text"])
                print(f"KNOWN-FINDING: property={prop} {k['text']}")
        for n in notes:
            print("note:", n)
        print(f"{prop} [{tier}]: {len(cases)} cases ({nexh} exhausted), {agg('paths')} paths, {agg('asserts')} assertions ({agg('asserts_sym')} symbolic), {agg('queries')} queries ({agg('solver_s'):.1f} s solver), {len(funcs)} functions, {time.time()-t0:.1f} s")
        if viol:
            for base, name, e in viol:
                print(f"  {name}: {e['kind']}: {e['msg']} at {e['where'].split(' < ')[0]}")
            print(f"VIOLATION property={prop} replay={viol[0][0]}")
            return 1
        bad = [n for n in notes if "could not continue" in n]
        if bad and STRICT:
            return 2
        if agg("paths") == 0:
            print(f"CHECK-ERROR property={prop}: nothing was explored")
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
