# Builds the encoded module from /repo's current sources, runs the symbolic executor on a list of
# jobs, replays counterexamples and sampled paths natively, writes the evidence.
import os, re, sys, json, glob, subprocess, shutil, tempfile, time, threading, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
FSX = os.path.join(BUILD, "fsx")
NCPU = min(8, os.cpu_count() or 1)

STDIO = ["fopen", "fopen64", "fclose", "fseek", "fseeko", "fseeko64", "ftell", "ftello", "ftello64", "rewind", "fread", "fwrite", "fputc", "putc", "fputs", "fgetc", "getc",
         "feof", "ferror", "clearerr", "fflush", "setvbuf", "remove", "unlink"]
LIBC = ["strncpy", "stpcpy", "strcat", "strncat", "strnlen", "strrchr", "strstr", "strdup", "memrchr", "mempcpy", "bzero", "reallocarray", "qsort", "bsearch"]
ALLOC = ["malloc", "calloc", "realloc", "free", "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "pthread_mutex_lock", "pthread_mutex_unlock", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]
CFLAGS = ["-std=c++11", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-include", VERIF + "/harness/prelude.h", "-fsized-deallocation", "-w"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def ensure_engine():
    r = sh(["make", "-s", "-C", VERIF, "-j4"])
    return os.path.exists(FSX), r.stdout


YIELD = [0]


def first_dbg(lines, li):
    """a debug location of the function that starts at line li, for the calls inserted in it"""
    for k in range(li + 1, len(lines)):
        if lines[k].startswith("}"):
            break
        m = re.search(r", !dbg !\d+", lines[k])
        if m and "call void @llvm.dbg" not in lines[k]:
            return m.group(0)
    return ""


def add_yields(t):
    """a call of fsw_yield at the entry of every function of the library and around every access to its mutable globals"""
    glob_ = set(re.findall(r"(?m)^(@[\w.$]+) = (?!external)[^\n]*?\bglobal ", t)) - {g for g in re.findall(r"(?m)^(@[\w.$]+) =", t) if "__ioinit" in g or g.startswith("@_ZTI") or g.startswith("@_ZGV")}
    out, entry, inf = [], False, False

    def y():
        YIELD[0] += 1
        return "  call void @fsw_yield(i64 %d)%s" % (YIELD[0], dbg)
    lines = t.split("\n")
    dbg = ""
    for li, l in enumerate(lines):
        if l.startswith("define "):
            dbg = first_dbg(lines, li)
            inf = "__cxx_global" not in l and "_GLOBAL__" not in l and "linkonce_odr" not in l or "N5flbwt" in l
            entry = inf
            out.append(l)
            continue
        if l.startswith("}"):
            inf = entry = False
        if entry and l.strip() and not re.match(r"^[\w.$-]+:", l):
            if " alloca " not in l:
                out.append(y())
                entry = False
        m = re.search(r", !dbg !\d+", l)
        if m and inf and not l.startswith("define ") and "@llvm.dbg" not in l:
            dbg = m.group(0)
        acc = inf and re.match(r"\s+(%[\w.]+ = load |store )", l) and any(re.search(re.escape(g) + r"(?![\w.$])", l) for g in glob_)
        if acc:
            out.append(y())
        out.append(l)
        if acc:
            out.append(y())
    return "\n".join(out) + "\ndeclare void @fsw_yield(i64)\n"


def add_counts(t, tag):
    """counts executed basic blocks, and bytes moved by block operations, in the global @fsw_count"""
    out, k, pend, inf = [], 0, False, False

    def add(v, ind="  "):
        nonlocal k
        k += 1
        n = "%%fsc%s.%d" % (tag, k)
        return ["%s%s = load i64, ptr @fsw_count" % (ind, n), "%s%sb = add i64 %s, %s" % (ind, n, n, v), "%sstore i64 %sb, ptr @fsw_count" % (ind, n)]
    lines, dbg = t.split("\n"), ""
    for li, l in enumerate(lines):
        if l.startswith("define "):
            inf = pend = first = True
            dbg = first_dbg(lines, li)
            out.append(l)
            continue
        if l.startswith("}"):
            inf = pend = False
        if inf:
            if re.match(r"^[\w.$-]+:", l):
                pend = True
            elif pend and l.strip() and not re.search(r"= (phi|landingpad|alloca) |^\s+(cleanup|catch|filter)\b", l):
                out += ["  call void @fsw_enter()" + dbg] if first else add("1")
                pend = first = False
            m = re.match(r"\s+call void @llvm\.mem\w+\.[\w.]+\(.*, i64 (%?[\w.]+), i1 ", l)
            if m:
                out += add(m.group(1))
        out.append(l)
    return "\n".join(out) + "\n@fsw_count = external global i64\ndeclare void @fsw_enter()\n"


class Builder:
    """compiles /repo's sources and the harness files to IR, links one module per harness set"""

    def __init__(self, work):
        self.work, self.notes, self.ll, self.errors = work, [], {}, []
        self.lock = threading.Lock()
        self.native_cache = {}
        self.mod_cache = {}
        self.native_locks = {}

    def cc(self, src, out, extra=()):
        for std in ("-std=c++11", "-std=gnu++17"):
            flags = [std if f.startswith("-std") else f for f in CFLAGS]
            r = sh(["clang++"] + flags + ["-S", "-emit-llvm", "-I" + REPO + "/include", "-I" + VERIF + "/harness", "-I" + REPO + "/src", "-o", out, src] + list(extra))
            if r.returncode == 0:
                return True
        self.errors.append("%s: %s" % (os.path.basename(src), r.stdout[-400:]))
        return False

    def compile(self, mods, want_cli):
        jobs = [(s, "src_" + os.path.basename(s) + ".ll", ()) for s in sorted(glob.glob(REPO + "/src/*.cpp"))]
        jobs += [(VERIF + "/harness/%s.cpp" % m.split("+")[0], m.replace("+", "_") + ".ll", ("-DWITH_CLI",) if m.endswith("+cli") else ()) for m in sorted(mods)]
        jobs += [(VERIF + "/harness/libc.cpp", "libc.ll", ())]
        if want_cli:
            jobs += [(s, "cli_" + os.path.basename(s) + ".ll", ("-Dmain=fs_cli_main",)) for s in sorted(glob.glob(REPO + "/examples/*.cpp"))]
        sem = threading.Semaphore(NCPU)
        res = {}

        def one(j):
            with sem:
                res[j[1]] = self.cc(j[0], os.path.join(self.work, j[1]), j[2])
        ts = [threading.Thread(target=one, args=(j,)) for j in jobs]
        [t.start() for t in ts]
        [t.join() for t in ts]
        self.ok = res
        return res

    def redirect(self):
        """call-site redirections in the library's IR (see harness/wrap.cpp, harness/fmodel.h)"""
        std = re.compile(r"@(%s)(?=\()" % "|".join(STDIO))
        self.have = {"ctor": False, "sort": False, "bwt_string": False, "extract": False, "yield": True, "count": True, "stdio": False}
        for f in sorted(os.listdir(self.work)):
            if not f.endswith(".ll") or not (f.startswith("src_") or f.startswith("cli_")):
                continue
            p = os.path.join(self.work, f)
            t = open(p).read()
            o = t
            t = re.sub(r"@_ZN5flbwt9HashTableC[12]Emm(?=\()", "@fsw_HashTable_ctor", t) if f != "src_hashtable.cpp.ll" else t
            if t != o:
                self.have["ctor"] = True
            lines = t.split("\n")
            for i, l in enumerate(lines):
                if " call " in l or " invoke " in l:
                    if "sort_LMS_strings" in l and "(" in l:
                        n = re.sub(r"@_ZN5flbwt16sort_LMS_stringsEPhPNS_9ContainerE(?=\()", "@fsw_sort", l)
                        if n != l:
                            self.have["sort"] = True
                            l = n
                    if "bwt_string" in l:
                        n = re.sub(r"@_ZN5flbwt10bwt_stringEPhmb(?=\()", "@fsw_bwt_string", l)
                        if n != l:
                            self.have["bwt_string"] = True
                            l = n
                    if "extract_LMS_strings" in l and "@_ZN5flbwt19extract_LMS_stringsEPhm(" in l:
                        self.have["extract"] = True
                    lines[i] = l
            t = "\n".join(lines)
            # every other text of this module calls the library directly
            self.ll[f] = (o, t, std.sub(r"@fsm_\1", t))

    def module(self, mods, redir, stdio):
        """links the module for one harness set; returns (optimised path, linked path) or None"""
        key = (tuple(sorted(mods)), tuple(sorted(redir)), stdio)
        with self.lock:
            if key in self.mod_cache:
                return self.mod_cache[key]
        d = os.path.join(self.work, "m%d" % len(self.mod_cache))
        os.mkdir(d)
        files = []
        decl = {"fsw_sort": "declare ptr @fsw_sort(ptr, ptr)", "fsw_bwt_string": "declare ptr @fsw_bwt_string(ptr, i64, i1)", "fsw_extract": "declare ptr @fsw_extract(ptr, i64)"}
        for f, (orig, red, io) in self.ll.items():
            if f.startswith("cli_") and "file+cli" not in mods:
                continue
            t = orig
            if "ctor" in redir and f != "src_hashtable.cpp.ll":
                t = re.sub(r"@_ZN5flbwt9HashTableC[12]Emm(?=\()", "@fsw_HashTable_ctor", t)
            for pat, sym, tag in ((r"@_ZN5flbwt16sort_LMS_stringsEPhPNS_9ContainerE(?=\()", "fsw_sort", "sort"), (r"@_ZN5flbwt10bwt_stringEPhmb(?=\()", "fsw_bwt_string", "bwt_string"), (r"@_ZN5flbwt19extract_LMS_stringsEPhm(?=\()", "fsw_extract", "extract")):
                if tag in redir:
                    ls = t.split("\n")
                    ch = False
                    for i, l in enumerate(ls):
                        if " call " in l or " invoke " in l:
                            n = re.sub(pat, "@" + sym, l)
                            ch |= n != l
                            ls[i] = n
                    t = "\n".join(ls)
                    if ch:
                        t += "\n" + decl[sym] + "\n"
            if "yield" in redir and f.startswith("src_"):
                t = add_yields(t)
            if "count" in redir and f.startswith("src_"):
                t = add_counts(t, "s")
            t = re.sub(r"@(%s)(?=\()" % "|".join(LIBC), r"@fsl_\1", t)
            if stdio:
                t = re.sub(r"@(%s)(?=\()" % "|".join(STDIO), r"@fsm_\1", t)
                if f.startswith("cli_"):
                    t = re.sub(r"@exit(?=\()", "@fsm_exit", t)
            p = os.path.join(d, f)
            open(p, "w").write(t)
            files.append(p)
        files.append(os.path.join(self.work, "libc.ll"))
        for m in mods:
            files.append(os.path.join(self.work, m.replace("+", "_") + ".ll"))
        out = os.path.join(d, "all.ll")
        r = sh(["llvm-link-18", "-S", "-o", out] + files)
        if r.returncode:
            self.errors.append("link %s: %s" % (mods, r.stdout[-400:]))
            res = None
        else:
            opt = os.path.join(d, "m.ll")
            r = sh(["opt-18", "-S", "-passes=loweratomic,sroa,simplifycfg,early-cse", "-o", opt, out])
            if r.returncode:
                self.errors.append("opt: " + r.stdout[-400:])
                res = None
            else:
                res = (opt, out)
        with self.lock:
            self.mod_cache[key] = res
        return res

    def native(self, linked, asan=True):
        """native executable of the same IR (with AddressSanitizer) for replay"""
        key = (linked, asan)
        with self.lock:
            lk = self.native_locks.setdefault(key, threading.Lock())
        with lk:
            if key in self.native_cache:
                return self.native_cache[key]
            t = open(linked).read()
            t = re.sub(r"@(%s)(?![\w.$])" % "|".join(ALLOC), r"@fsn_\1", t)
            t = re.sub(r'"alloc-family"="\w+"', "", t)
            t = re.sub(r'allockind\("[^"]*"\)|allocsize\([^)]*\)', "", t)
            t = re.sub(r"(?m)^(attributes #\d+ = \{ )", r'\1"fsx" sanitize_address ' if asan else r'\1"fsx" ', t)
            p = linked + (".asan.ll" if asan else ".plain.ll")
            exe = p[:-3] + ".exe"
            open(p, "w").write(t)
            r = sh(["clang++", "-O0", "-w", p, os.path.join(BUILD, "rt_asan.o" if asan else "rt_plain.o"), "-rdynamic", "-ldl", "-lpthread", "-o", exe] + (["-fsanitize=address"] if asan else []))
            if r.returncode:
                self.errors.append("native: " + r.stdout[-600:])
                exe = None
            self.native_cache[key] = exe
            return exe


def run_native(exe, entry, inputs, params, stale="", fill=None, timeout=20):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "exitcode=42:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=0:max_allocation_size_mb=4096"
    env.pop("FS_FILL", None)
    if fill is not None:
        env["FS_FILL"] = str(fill)
    def arg(t):
        if len(t) < 60000:
            return t, None
        f = tempfile.NamedTemporaryFile("w", delete=False)
        f.write(t)
        f.close()
        return "@" + f.name, f.name
    tmp = []
    args = [exe, entry]
    for t in (inputs, ";".join("%s=%d" % kv for kv in sorted(params.items())), stale):
        a, n = arg(t)
        args.append(a)
        if n:
            tmp.append(n)
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
        return r.returncode, r.stdout.decode("latin1"), r.stderr.decode("latin1")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    finally:
        for n in tmp:
            os.unlink(n)


class Sched:
    """runs jobs concurrently within NCPU slots"""

    def __init__(self):
        self.free = NCPU
        self.cv = threading.Condition()

    def __call__(self, jobs, fn):
        def w(j):
            k = min(j.get("slots", 1), NCPU)
            with self.cv:
                while self.free < k:
                    self.cv.wait()
                self.free -= k
            try:
                fn(j, k)
            except Exception as e:  # noqa
                j["error"] = repr(e)
            finally:
                with self.cv:
                    self.free += k
                    self.cv.notify_all()
        ts = [threading.Thread(target=w, args=(j,)) for j in jobs]
        [t.start() for t in ts]
        [t.join() for t in ts]


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    os.setpgrp()


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) match=(.*?) :: (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def decode_inputs(t, cap=400):
    """compact human-readable form of an assignment"""
    arr, rest = {}, []
    for kv in t.split("|")[0].split(";"):
        m = re.match(r"(.*)\[(\d+)\]=([0-9a-f]+)$", kv)
        if m:
            arr.setdefault(m.group(1), []).append(m.group(3).zfill(2))
        elif kv:
            rest.append(kv)
    s = " ".join(["%s=[%s]" % (k, " ".join(v)) for k, v in arr.items()] + rest)
    return s if len(s) <= cap else s[:cap] + "..."


def run_check(prop, meta, jobs, tier, seed, budget):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": meta.get("assumptions", []), "wall_s": 0, "violations": 0}

    def finish(code):
        ev["wall_s"] = round(time.time() - t0, 2)
        json.dump(ev, open(ev_path, "w"), indent=1)
        sys.stdout.flush()
        return code
    ok, out = ensure_engine()
    if not ok:
        print("engine does not build:\n" + out)
        cov["inconclusive"] = ["engine does not build"]
        return finish(0)
    work = tempfile.mkdtemp(prefix="w.%s." % prop, dir=BUILD)
    try:
        return _run(prop, meta, jobs, tier, seed, budget, t0, cov, ev, work, finish)
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(work, ignore_errors=True)


def _run(prop, meta, jobs, tier, seed, budget, t0, cov, ev, work, finish):
    b = Builder(work)
    mods = sorted({m for j in jobs for m in j["mods"]})
    res = b.compile(mods, any(m.endswith("+cli") for m in mods))
    incon = []
    if not all(v for k, v in res.items() if k.startswith("src_")):
        incon.append("source does not compile with clang++: " + "; ".join(b.errors))
    if not incon:
        b.redirect()
    live = []
    for j in jobs if not incon else []:
        need = list(j["mods"])
        bad = [m for m in need if not res.get(m.replace("+", "_") + ".ll")]
        redir = [r for r in j.get("redir", []) if b.have.get(r)]
        miss = [r for r in j.get("redir", []) if not b.have.get(r)]
        if "wrap" in bad:
            bad.remove("wrap")
            need.remove("wrap")
            miss += [r for r in redir if r in ("ctor", "sort")]
            redir = [r for r in redir if r not in ("ctor", "sort")]
        if bad:
            incon.append("%s: harness %s does not compile against the current headers" % (j["entry"], bad))
            continue
        if miss and j.get("redir_needed", False):
            incon.append("%s: redirection point %s not found" % (j["entry"], miss))
            continue
        j["mod"] = b.module(need, redir, j.get("stdio", False))
        if not j["mod"]:
            incon.append("%s: module does not link: %s" % (j["entry"], b.errors[-1:]))
            continue
        live.append(j)
    stop = {"v": False}
    # native executables are built while the executor runs
    nat = {}

    def mknat():
        for j in live:
            if j.get("native", "asan"):
                k = (j["mod"][1], j.get("native", "asan") == "asan")
                if k not in nat and not stop["v"]:
                    nat[k] = b.native(*k)
    th = threading.Thread(target=mknat)
    th.start()

    def replay(j, v):
        """runs a counterexample natively; returns (record, True or the reason it was not reproduced)"""
        mode = j.get("native", "asan")
        exe = b.native(j["mod"][1], mode == "asan") if mode else None
        how = None
        rec = {"property": prop, "entry": j["entry"], "params": j.get("params", {}), "mods": j["mods"], "redir": j.get("redir", []), "stdio": j.get("stdio", False), "kind": v["kind"], "message": v["msg"], "where": v["where"], "trace": v["trace"], "inputs": v["inputs"], "stale_heap_bytes": v["stale"], "native": mode}
        if exe:
            for fill, stale in [(None, v["stale"]), (0, v["stale"]), (255, ""), (170, ""), (1, ""), (2, ""), (256, "")]:
                rc, so, se = run_native(exe, j["entry"], v["inputs"], j.get("params", {}), stale, fill)
                if rc == "timeout" and v["kind"] != "step-limit" and not j.get("big"):
                    # slow is not wrong: one longer run decides
                    rc, so, se = run_native(exe, j["entry"], v["inputs"], j.get("params", {}), stale, fill, 100)
                    if rc == "timeout":
                        how = "native run ends with timeout"
                        break
                if rc in (0, 43, 44, 45, 2) or (rc == "timeout" and j.get("big")):
                    how = how or ("native run ends with %s" % rc)
                    rec["last_native"] = (so[-200:], se[-200:])
                    continue
                rec["native_result"] = {"exit": rc, "fill": fill, "stdout": so[-300:], "stderr": se[-1500:]}
                return rec, True
        rec["replay"] = how or "no native executable: %s" % b.errors[-1:]
        return rec, False
    confirmed, unconfirmed, known = [], [], []
    vlock = threading.Lock()
    kfs = known_findings(prop)

    def judge(j):
        seen = {}
        for x in j["res"]["parts"]:
            for v in x["violations"]:
                key = (v["kind"], v["where"])
                if stop["v"] or seen.get(key, 0) >= 3:
                    continue
                seen[key] = seen.get(key, 0) + 1
                if v["kind"] == "step-limit" and j.get("big"):
                    j["undecided"] = j.get("undecided", 0) + 1
                    continue
                rec, ok = replay(j, v)
                with vlock:
                    if not ok:
                        unconfirmed.append(rec)
                        j["undecided"] = j.get("undecided", 0) + 1
                        continue
                    kf = [k for k in kfs if k[0] == j["entry"] and re.search(k[1], v["kind"] + " " + v["msg"] + " " + v["where"] + " " + v["inputs"])]
                    if kf:
                        known.append(kf[0])
                    else:
                        confirmed.append(rec)
                        stop["v"] = True

    def run(j, slots):
        if stop["v"]:
            j["skipped"] = True
            return
        left = budget - (time.time() - t0)
        lim = max(3, min(j.get("time", 60), left))
        if left < 3:
            j["skipped"] = True
            return
        out = os.path.join(work, "o%d.json" % id(j))
        j["slots_used"] = slots
        cmd = [FSX, j["mod"][0], "--entry", j["entry"], "--jobs", str(slots), "--time", str(lim), "--out", out, "--seed", str(seed), "--tests", str(j.get("tests", 8)), "--max-steps", str(j.get("max_steps", 30000000)), "--max-viol", "4", "--query-ms", str(j.get("query_ms", 20000))]
        for k, v in j.get("params", {}).items():
            cmd += ["--param", "%s=%d" % (k, v)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limit)
        try:
            o, _ = p.communicate(timeout=lim * 1.5 + 60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            j["error"] = "executor exceeded its time limit"
            return
        try:
            j["res"] = json.load(open(out))
        except Exception:
            j["error"] = "executor ended with %s: %s" % (p.returncode, (o or b"").decode("latin1")[-300:])
            return
        judge(j)
    Sched()(live, run)
    th.join()

    # collect
    fns, bounds, notes = {}, [], {}
    tot = dict(paths=0, killed=0, forks=0, steps=0, queries=0, sat=0, unsat=0, unknown=0, asserts=0, assert_queries=0, enumerations=0)
    solver = 0.0
    exhausted_all = True
    tests, labels = [], {}
    for j in live:
        e = {"entry": j["entry"], "params": j.get("params", {}), "what": j.get("what", "")}
        bounds.append(e)
        if j.get("skipped"):
            e["result"] = "not run (budget or earlier violation)"
            exhausted_all = False
            continue
        if j.get("error"):
            e["result"] = j["error"]
            incon.append("%s: %s" % (j["entry"], j["error"]))
            exhausted_all = False
            continue
        ex, jp, lab = 1, 0, set()
        inc = 0
        jt = []
        for x in j["res"]["parts"]:
            for k in tot:
                tot[k] += x[k]
            solver += x["solver_s"]
            jp += x["paths"]
            ex &= x["exhausted"]
            lab |= set(x["labels"])
            for k, v in x["functions"].items():
                fns[k] = fns.get(k, 0) + v
            for k, v in x["notes"].items():
                notes[k] = notes.get(k, 0) + v
                if k.startswith("INCONCLUSIVE"):
                    inc += v
            jt += [(j, t) for t in x["tests"]]
        tests += jt[:j.get("tests", 8)]
        e["paths"], e["exhausted"], e["wall_s"] = jp, bool(ex and not inc), round(j["res"]["wall_s"], 2)
        exhausted_all &= bool(ex and not inc)
        if j.get("undecided"):
            exhausted_all = False
            e["exhausted"] = False
            incon.append("%s: %d counterexamples of the encoding were not reproduced by the compiled code" % (j["entry"], j["undecided"]))
        if inc:
            incon.append("%s: %d paths could not be decided" % (j["entry"], inc))
        for l in j.get("reach", []):
            if l not in lab:
                labels.setdefault(j["entry"], []).append(l)
        e["reached"] = sorted(lab)
        if not ex:
            e["result"] = "time budget ended before the space was exhausted"
    # native validation of sampled complete paths
    val_ok, val_bad, nval = 0, [], 0
    vend = time.time() + (60 if tier == "quick" else 240)
    if not confirmed:
        sem = threading.Semaphore(NCPU)
        lk = threading.Lock()
        cnt = [0]

        def val(j, t):
            with sem:
                if time.time() > vend:
                    return
                mode = j.get("native", "asan")
                exe = nat.get((j["mod"][1], mode == "asan")) if mode else None
                if not exe:
                    return
                inp, _, obs = t.partition("|")
                rc, so, se = run_native(exe, j["entry"], inp, j.get("params", {}), "", None, 60)
                with lk:
                    if rc == 0 and so.strip().endswith(obs.strip()):
                        cnt[0] += 1
                    else:
                        val_bad.append({"entry": j["entry"], "params": j.get("params", {}), "inputs": inp[:2000], "expected": obs[:300], "exit": rc, "got": so[-300:], "stderr": se[-600:]})
        ts = [threading.Thread(target=val, args=x) for x in tests]
        [t.start() for t in ts]
        [t.join() for t in ts]
        val_ok = cnt[0]
    cov["states"] = tot["paths"] + tot["killed"]
    cov["transitions"] = tot["steps"]
    cov["traces_validated_against_impl"] = val_ok
    cov["samples"] = [{"entry": j["entry"], "inputs": decode_inputs(t), "observed": t.partition("|")[2][:200]} for j, t in tests[:6]]
    cov["paths_completed"] = tot["paths"]
    cov["state_is"] = "one explored path (a set of inputs sharing its path condition); transition: one executed IR instruction"
    cov["solver"] = {"queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "assertions_evaluated": tot["asserts"], "assertion_queries": tot["assert_queries"], "case_splits": tot["enumerations"], "forks": tot["forks"], "solver_s": round(solver, 2)}
    cov["exhaustive"] = bool(exhausted_all and not incon)
    cov["bounds"] = bounds
    cov["outside"] = meta.get("outside", "")
    cov["functions_encoded"] = sorted(k for k in fns if "flbwt" in k or "bwt_is" in k or "fs_cli_main" in k)
    if notes:
        cov["notes"] = notes
    if labels:
        cov["unreached_labels"] = labels
    if incon:
        cov["inconclusive"] = incon
    if unconfirmed:
        cov["unreproduced_counterexamples"] = unconfirmed[:5]
    if val_bad:
        cov["validation_mismatches"] = val_bad[:5]
    ev["violations"] = len(confirmed)
    for n in incon:
        print("INCONCLUSIVE:", n)
    for e, l in labels.items():
        print("NOT REACHED: %s: %s" % (e, l))
    for u in unconfirmed[:3]:
        print("note: counterexample not reproduced natively: %s %s at %s (%s)" % (u["kind"], u["message"], u["where"], u["replay"]))
    for u in val_bad[:3]:
        print("note: native run disagrees with the encoding:", json.dumps(u)[:600])
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    print("%s [%s]: %d paths, %d instructions, %d solver queries (%.1f s), %d traces validated natively, exhaustive=%s, %.1f s" % (prop, tier, tot["paths"], tot["steps"], tot["queries"], solver, val_ok, cov["exhaustive"], time.time() - t0))
    if confirmed:
        for i, r in enumerate(confirmed):
            p = os.path.join(VERIF, "evidence", "%s.replay%d.json" % (prop, i))
            json.dump(r, open(p, "w"), indent=1)
            print("  %s: %s at %s\n  inputs: %s\n  native: exit %s %s" % (r["kind"], r["message"], r["where"], decode_inputs(r["inputs"]), r["native_result"]["exit"], r["native_result"]["stdout"][-120:].strip()))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.join(VERIF, "evidence", "%s.replay0.json" % prop)))
        return finish(1)
    return finish(0)
