"""Build driver, process driver, known findings, evidence: shared by every check."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
CPP = os.path.join(VERIF, "cpp")
KNOWN = os.path.join(VERIF, "known-findings.txt")
NPROC = min(8, os.cpu_count() or 1)

BASE = ["-std=c++20", "-DBOOST_DATE_TIME_NO_LIB", "-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL",
        "-DSPDLOG_SHARED_LIB", "-DFMT_DEPRECATED_OSTREAM", "-DFMT_CONSTEVAL="]
FLAVOURS = {
    "asan": ["-DNDEBUG", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-DNDEBUG", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-DNDEBUG", "-O2"],
}
FLAVOURS["fuzz"] = ["-DNDEBUG", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
CXX = {"fuzz": "clang++"}
LINK = {"fuzz": ["-fsanitize=fuzzer,address,undefined"], "asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "plain": []}


class HarnessError(Exception):
    """The machinery, not the code under test, is at fault."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def repo_sources():
    return sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))


def repo_headers():
    return sorted(glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/**/*.h*", recursive=True))


def _files(ps):
    return [p for p in ps if os.path.isfile(p)]


def version_hpp(outdir):
    """include/cppsas7bdat/version.hpp, as CMake's configure_file makes it"""
    src = REPO + "/include/cppsas7bdat/version.hpp.in"
    txt = open(src).read()
    m = re.search(r"\bVERSION\s+([0-9]+(?:\.[0-9]+)*)\s", open(REPO + "/CMakeLists.txt").read().split("project", 1)[-1])
    full = m.group(1) if m else "0.0.0"
    v = (full.split(".") + ["", "", "", ""])[:4]
    val = dict(zip(["PROJECT_VERSION_MAJOR", "PROJECT_VERSION_MINOR", "PROJECT_VERSION_PATCH", "PROJECT_VERSION_TWEAK"], v), PROJECT_VERSION=full)
    txt = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda m: val.get(m.group(1) or m.group(2), ""), txt)
    d = os.path.join(outdir, "cppsas7bdat")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "version.hpp")
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = "%s.%d" % (p, os.getpid())
        open(tmp, "w").write(txt)
        os.replace(tmp, p)
    return outdir


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def compile_many(flavour, units, flags=(), subdir=""):
    """units: list of source files; returns their object files.  Cached by content."""
    gen = version_hpp(os.path.join(BUILD, "gen"))
    hdrs = _files(repo_headers()) + _files(glob.glob(CPP + "/*.hpp")) + [gen + "/cppsas7bdat/version.hpp"]
    cmd0 = [CXX.get(flavour, "g++")] + BASE + FLAVOURS[flavour] + ["-I" + REPO + "/include", "-I" + gen, "-I" + CPP] + list(flags)
    hd = _digest(hdrs, " ".join(cmd0))
    od = os.path.join(BUILD, flavour, subdir)
    os.makedirs(od, exist_ok=True)
    objs, jobs = [], []
    for u in units:
        extra = _files(glob.glob(os.path.dirname(u) + "/*.hpp")) if not u.startswith(CPP) else []
        o = os.path.join(od, os.path.basename(u)[:-4] + "-" + _digest([u] + extra, hd + u) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((u, o))

    def one(j):
        u, o = j
        for old in glob.glob(os.path.join(od, os.path.basename(u)[:-4] + "-" + "?" * 24 + ".o")):
            if time.time() - os.path.getmtime(old) > 3600:
                try: os.unlink(old)
                except OSError: pass
        tmp = "%s.%d.tmp" % (o, os.getpid())
        r = subprocess.run(cmd0 + ["-c", u, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return u + "\n" + r.stdout[-4000:]
        os.replace(tmp, o)
        return None

    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**9 if j[0].endswith("/reader.cpp") else 0))
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise HarnessError("compilation failed: " + errs[0])
    return objs


def link(flavour, objs, out, libs=("-lspdlog", "-lfmt"), shared=False):
    key = hashlib.sha256((" ".join(objs) + " ".join(libs)).encode()).hexdigest()[:16]
    os.makedirs(os.path.dirname(out), exist_ok=True)
    full = out + "-" + key
    if not os.path.exists(full):
        for old in glob.glob(out + "-" + "?" * 16):
            try: os.unlink(old)
            except OSError: pass
        tmp = "%s.%d.tmp" % (full, os.getpid())
        r = subprocess.run([CXX.get(flavour, "g++")] + (["-shared"] if shared else []) + LINK[flavour] + objs + ["-o", tmp] + list(libs),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise HarnessError("link failed: " + r.stdout[-4000:])
        os.replace(tmp, full)
    return full


def build_harness(flavour, tus):
    t = time.time()
    with Lock(flavour):
        objs = compile_many(flavour, repo_sources() + [os.path.join(CPP, x) for x in ["main.cpp", "alloc.cpp"] + list(tus)])
        exe = link(flavour, objs, os.path.join(BUILD, flavour, "h_" + "_".join(x[:-4] for x in tus)))
    log("built %s in %.1fs" % (exe, time.time() - t))
    return exe


def build_fuzz():
    """the libFuzzer program, with clang's sanitizers"""
    with Lock("fuzz"):
        units = repo_sources() + [os.path.join(CPP, "fuzz.cpp"), os.path.join(CPP, "alloc.cpp")]
        objs = compile_many("fuzz", units)
        return link("fuzz", objs, os.path.join(BUILD, "fuzz", "fuzz"))


def run_fuzz(c, exe, seeds, runs, max_len=20000, timeout=7200):
    """one libFuzzer process per core, bounded by the number of executions"""
    env = env_for()
    def one(w):
        d = os.path.join(c.work, "fuzz%d" % w)
        os.makedirs(d + "/corpus")
        cmd = [exe, d + "/corpus", seeds, "-runs=%d" % (runs // NPROC), "-seed=%d" % (c.seed * 100 + w + 1), "-max_len=%d" % max_len, "-timeout=60",
               "-rss_limit_mb=2500", "-malloc_limit_mb=300", "-artifact_prefix=" + d + "/", "-print_final_stats=1", "-use_value_profile=%d" % (w & 1)]
        with open(d + "/log", "w+", errors="replace") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=f, env=env, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = None
            f.seek(0)
            e = f.read()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", e)
        c.count("fuzz_executions", int(m.group(1)) if m else 0)
        cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", e)
        with c.mu:
            if cov:
                c.n["fuzz_edges"] = max(c.n.get("fuzz_edges", 0), int(cov[-1][0]))
                c.n["fuzz_features"] = max(c.n.get("fuzz_features", 0), int(cov[-1][1]))
            c.n["fuzz_corpus"] = c.n.get("fuzz_corpus", 0) + len(os.listdir(d + "/corpus"))
        for x in os.listdir(d + "/corpus"):
            c.inputs.add(x)
        if rc is None:
            c.inconclusive.append("libFuzzer process %d ran out of time" % w)
        elif rc:
            art = glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*") + glob.glob(d + "/oom-*") + glob.glob(d + "/leak-*")
            m = re.search(r"^MONITOR: (.+)$", e, re.M)
            key = "fuzz:" + (re.sub(r"\W+", "-", m.group(1)) if m else "timeout" if "libFuzzer: timeout" in e else "memory" if "libFuzzer: out-of-memory" in e else crash_key(rc, e))
            dst = None
            if art:
                dst = os.path.join(c.rep, "%s-%s.sas7bdat" % (c.prop, os.path.basename(art[0])[:24]))
                with open(art[0], "rb") as src, open(dst, "wb") as out:
                    out.write(src.read()[1:])
            c.violation(key, trim_err(e) or e[-800:], file=dst)

    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, range(NPROC)))


def build_cli(flavour):
    """the command line tool"""
    with Lock(flavour):
        objs = compile_many(flavour, repo_sources() + [REPO + "/apps/cppsas7bdat-ci.cpp"])
        return link(flavour, objs, os.path.join(BUILD, flavour, "cli"), libs=("-lspdlog", "-lfmt", "-ldocopt"))


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=1:hard_rss_limit_mb=3000:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4",
}


def env_for(**kw):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["CORPUS"] = REPO + "/test"
    e["TZ"] = "UTC"
    e["LC_ALL"] = "C.UTF-8" if kw.pop("utf8", False) else "C"
    e.update(kw)
    return e


def crash_key(rc, err):
    """A stable name for what a sanitizer or the run time reported."""
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w-]+)(?: \(?([^\s()]+)\)?)?(?: in (.+))?", err)
    u = re.search(r"runtime error: (.+)", err)
    if u:
        msg = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", u.group(1))
        return "ubsan:" + re.sub(r"[^\w]+", "-", msg)[:60].strip("-")
    if m:
        fn = re.sub(r"[(<\[].*", "", m.group(4) or "").strip()
        return "%s:%s%s" % (m.group(1), m.group(2), ":" + fn if fn else "")
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Syscall param|Source and dest|Invalid free|Mismatched free)", err)
    if m:
        return "memcheck:" + m.group(1).replace(" ", "-")
    if "hard rss limit exhausted" in err:
        return "memory:rss-limit"
    m = re.search(r"Assertion '(.+?)' failed", err)
    if m:
        return "assertion:" + m.group(1)[:60]
    m = re.search(r"terminate called after throwing an instance of '(.+?)'", err)
    if m:
        return "terminate:" + m.group(1)
    if rc < 0:
        return "signal:%d" % -rc
    return "exit:%d" % rc


class Findings:
    def __init__(self, prop):
        self.known = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"known: property=(\w+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == prop:
                    self.known[m.group(2)] = m.group(3)


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed, level="exploration"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.viol = {}       # key -> dict
        self.order = []
        self.n = {}
        self.inputs, self.features = set(), set()
        self.samples = []
        self.digests = {}
        self.inconclusive = []
        self.extra = {}
        self.mu = threading.Lock()
        self.findings = Findings(prop)
        self.rep = os.path.join(EVID, "replays")
        os.makedirs(self.rep, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)

    def count(self, k, v=1):
        with self.mu:
            self.n[k] = self.n.get(k, 0) + v

    def violation(self, key, detail, **kw):
        with self.mu:
            if key in self.viol:
                self.viol[key]["times"] += 1
                return
            self.viol[key] = dict(property=self.prop, key=key, detail=detail, seed=self.seed, tier=self.tier, times=1, **kw)
            self.order.append(key)

    def finish(self, evaluations, distinct, rule, floors=(), assumptions=()):
        shutil.rmtree(self.work, ignore_errors=True)
        new = [k for k in self.order if k not in self.findings.known]
        cov = dict(evaluations=int(evaluations), distinct_nontrivial=int(distinct), rule=rule,
                   samples=self.samples[:8] or ["none"], observed={k: self.n[k] for k in sorted(self.n)})
        cov.update(self.extra)
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(EVID, exist_ok=True)
        p = os.path.join(EVID, self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(p + ".tmp", p)
        for k, text in self.findings.known.items():
            seen = self.viol.get(k)
            print("KNOWN-FINDING: property=%s %s [key %s, %s]" % (
                self.prop, text, k, "met %d time(s) in this run" % seen["times"] if seen else "not met in this run"))
        for k in new[:6]:
            v = self.viol[k]
            name = "%s-%s" % (self.prop, re.sub(r"[^\w.-]+", "_", k)[:70])
            path = os.path.join(self.rep, name + ".json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print("  %s: %s" % (k, str(v["detail"])[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if new:
            sys.stdout.flush()
            return 1
        if self.inconclusive:
            print("INCONCLUSIVE property=%s %s" % (self.prop, "; ".join(self.inconclusive[:3])))
            return 5
        for k, least in floors:
            if self.n.get(k, 0) < least:
                print("ERROR property=%s observed too little: %s=%d, expected at least %d" % (self.prop, k, self.n.get(k, 0), least))
                return 6
        print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs %s" % (
            self.prop, self.tier, evaluations, distinct, time.time() - self.t0,
            " ".join("%s=%d" % (k, self.n[k]) for k in sorted(self.n))[:700]))
        return 0


class Worker:
    """Runs the cases w, w+step, ... of one property in one process at a time, restarting after a crash."""

    def __init__(self, check, exe, lo, hi, step, env, args, stall, deadline, wrap=(), hprop=None):
        self.wrap, self.hprop = list(wrap), hprop or check.prop
        self.c, self.exe, self.lo, self.hi, self.step = check, exe, lo, hi, step
        self.env, self.args, self.stall, self.deadline = env, args, stall, deadline
        self.S = {}

    def cmd(self, extra):
        c = self.c
        return self.wrap + [self.exe, self.hprop, "--seed", str(c.seed), "--dump", c.rep] + (["--thorough"] if c.tier == "thorough" else []) + self.args + extra

    def spawn(self, extra, prog, stall, expect_case=None):
        """one process; returns (rc, stdout lines, stderr, stalled, current case)"""
        wd = tempfile.mkdtemp(prefix="w", dir=self.c.work)
        out, err = open(os.path.join(wd, "out"), "w+", errors="replace"), open(os.path.join(wd, "err"), "w+", errors="replace")
        if os.path.exists(prog):
            os.unlink(prog)
        p = subprocess.Popen(self.cmd(extra + ["--progress", prog, "--work", wd]), stdout=out, stderr=err, env=self.env, start_new_session=True)
        last, since, stalled, cur = None, time.time(), False, None
        while True:
            try:
                p.wait(0.2 if time.time() - since < 5 else 1)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = self.read_prog(prog)
            if cur != last:
                last, since = cur, time.time()
            if time.time() - since > stall:
                stalled = True
            if stalled or time.time() > self.deadline:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait()
                break
        cur = self.read_prog(prog)
        out.seek(0), err.seek(0)
        lines, e = out.read().split("\n"), err.read()
        out.close(), err.close()
        shutil.rmtree(wd, ignore_errors=True)
        return p.returncode, lines, e, stalled, cur

    @staticmethod
    def read_prog(prog):
        try:
            with open(prog, "rb") as f:
                v = int.from_bytes(f.read(8), sys.byteorder)
            return v - 1 if v else None
        except OSError:
            return None

    def absorb(self, lines):
        c, S, done, harness = self.c, {}, False, None
        for l in lines:
            if l.startswith("V "):
                try: v = json.loads(l[2:])
                except ValueError: continue
                c.violation(v["key"], v["detail"], case=v["case"], file=v["file"], exe_args=self.args, flavour=getattr(self, "flavour", None))
            elif l.startswith("S "):
                try: S = json.loads(l[2:])
                except ValueError: pass
            elif l.startswith("X "):
                with c.mu:
                    if len(c.samples) < 8:
                        c.samples.append(json.loads(l[2:]))
            elif l.startswith("I "):
                with c.mu: c.inputs.update(l[2:].split())
            elif l.startswith("G "):  # the same input has to give the same digest in every process
                k, d = l[2:].split()
                with c.mu:
                    was = c.digests.setdefault(k, d)
                    c.n["digests_compared"] = c.n.get("digests_compared", 0) + (was is not d)
                if was != d:
                    c.violation("process-dependent", "case %s gives another result in another process (%s)" % (k, " ".join(self.wrap) or "other build and environment"), case=int(k.split("-")[0]))
            elif l.startswith("F "):
                with c.mu: c.features.update(l[2:].split())
            elif l.startswith("H "):
                harness = l[2:]
            elif l == "DONE":
                done = True
        for k, v in S.items():
            c.count(k, v)
        return done, harness

    def run(self):
        c, at, crashes = self.c, self.lo, 0
        prog = os.path.join(c.work, "prog-%d" % self.lo)
        while at < self.hi:
            if time.time() > self.deadline:
                c.inconclusive.append("time budget used up at case %d" % at)
                return
            rc, lines, err, stalled, cur = self.spawn(["--from", str(at), "--to", str(self.hi), "--step", str(self.step)], prog, self.stall)
            done, harness = self.absorb(lines)
            if harness or rc == 3:
                raise HarnessError(harness or "harness: " + err[-500:])
            if done and rc == 0:
                return
            if done:  # died after its last case: static destructors, sanitizer at exit
                c.violation(crash_key(rc, err), "after the last case: " + err[-1500:])
                return
            if time.time() > self.deadline and not stalled:
                c.inconclusive.append("time budget used up at case %s" % cur)
                return
            if cur is None:
                raise HarnessError("worker died outside a case, rc=%s: %s" % (rc, err[-1500:]))
            if stalled:  # a hang, or a loaded machine: once more, alone, with more time
                rc2, lines2, err2, st2, _ = self.spawn(["--case", str(cur)], prog, self.stall * 1.5)
                if st2:
                    c.violation("hang", "case %d makes no progress for %d s" % (cur, self.stall * 1.5), case=cur)
                    return
                self.absorb([l for l in lines2 if l[:2] == "V "])
            elif rc == -signal.SIGKILL:
                rc2, lines2, err2, st2, _ = self.spawn(["--case", str(cur)], prog, self.stall * 1.5)
                if rc2 not in (0,):
                    c.violation("killed:" + crash_key(rc2, err2), "case %d was killed twice (memory): %s" % (cur, err2[-500:]), case=cur)
            else:
                # the same case once more, to keep its input for the replay
                rc2, lines2, err2, st2, _ = self.spawn(["--case", str(cur)], prog, self.stall)
                self.absorb([l for l in lines2 if l[:2] == "V "])
                c.violation("crash:" + crash_key(rc, err), "case %d: %s" % (cur, trim_err(err)), case=cur,
                            again=crash_key(rc2, err2) if rc2 else "not repeated alone")
            crashes += 1
            if crashes >= 3:
                return
            at = cur + self.step


def trim_err(e):
    i = max(e.find("ERROR: "), e.find("runtime error: ") - 150, e.find("WARNING: ThreadSanitizer"))
    return e[max(0, i):][:2500]


def run_cases(check, exe, ncases, env=None, args=(), stall=None, limit=None, lo=0, wrap=(), hprop=None):
    env = env or env_for()
    stall = stall or (90 if check.tier == "quick" else 400)
    deadline = check.t0 + (limit or (700 if check.tier == "quick" else 6 * 3600))
    errs = []

    def go(w):
        try:
            Worker(check, exe, lo + w, lo + ncases, NPROC, env, list(args), stall, deadline, wrap, hprop).run()
        except HarnessError as e:
            errs.append(e)
        except Exception as e:  # noqa
            errs.append(HarnessError(repr(e)))
    ts = [threading.Thread(target=go, args=(w,)) for w in range(NPROC)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs and not check.viol:
        raise errs[0]
