"""The checks of the Python and R bindings: jobs, what every job has to log, and the comparison."""
import datetime, glob, json, os, random, re, shutil, struct, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import vlib

PY = os.path.join(vlib.VERIF, "py")
RD = os.path.join(vlib.VERIF, "r")
US_DAY = 86400 * 10**6


def lib(name):
    return subprocess.run(["g++", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def preload():
    return " ".join([os.path.realpath(lib(x)) for x in ("libasan.so", "libubsan.so", "libstdc++.so.6")])


# ------------------------------------------------------------------ building
def build_python():
    """the Python package, its module built with ASan and UBSan; returns the directory to put in sys.path"""
    import sysconfig
    src = vlib.REPO + "/python/pycppsas7bdat"
    with vlib.Lock("asan"):
        pic = vlib.compile_many("asan", vlib.repo_sources(), ("-fPIC",), "pic")
        inc = ("-fPIC", "-DBOOST_PYTHON_DYN_LINK", "-DBOOST_PYTHON_NO_LIB", "-Dcpp_EXPORTS", "-isystem", sysconfig.get_paths()["include"],
               "-isystem", "/usr/lib/python3/dist-packages/numpy/core/include", "-fno-sanitize=vptr,alignment")  # Boost.Python places its holders at odd addresses
        mod = vlib.compile_many("asan", sorted(glob.glob(src + "/cpp/*.cpp")), inc, "py")
        so = vlib.link("asan", pic + mod, os.path.join(vlib.BUILD, "asan", "py", "cpp"), libs=("-lspdlog", "-lfmt", "-lboost_python312", "-lboost_numpy312"), shared=True)
        key = vlib._digest(glob.glob(src + "/*.py") + [so])
        d = os.path.join(vlib.BUILD, "asan", "pypkg-" + key)
        if not os.path.exists(d):
            for old in glob.glob(os.path.join(vlib.BUILD, "asan", "pypkg-*")):
                if time.time() - os.path.getmtime(old) > 3600:
                    shutil.rmtree(old, ignore_errors=True)
            t = d + ".%d" % os.getpid()
            os.makedirs(t + "/pycppsas7bdat")
            for f in glob.glob(src + "/*.py"):
                shutil.copy(f, t + "/pycppsas7bdat/")
            shutil.copy(so, t + "/pycppsas7bdat/cpp" + sysconfig.get_config_var("EXT_SUFFIX"))
            os.rename(t, d)
    return d


def build_r():
    """the R package, its module built with ASan and UBSan; returns its library directory and the probe of the allocator"""
    src = vlib.REPO + "/R/CPPSAS7BDAT"
    home = subprocess.run(["R", "RHOME"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    rinc = os.path.join(os.path.dirname(os.path.dirname(home)), "share/R/include")
    rcpp = subprocess.run(["Rscript", "--vanilla", "-e", 'cat(system.file("include", package="Rcpp"))'], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    with vlib.Lock("asan"):
        pic = vlib.compile_many("asan", vlib.repo_sources(), ("-fPIC",), "pic")
        mod = vlib.compile_many("asan", sorted(glob.glob(src + "/src/*.cpp")), ("-fPIC", "-isystem", rinc, "-isystem", rcpp, "-fno-sanitize=vptr"), "r")
        so = vlib.link("asan", pic + mod, os.path.join(vlib.BUILD, "asan", "r", "libRcppsas7bdat"), shared=True)
        files = [f for f in vlib._files(glob.glob(src + "/R/*") + [src + "/NAMESPACE", src + "/DESCRIPTION.in", src + "/src/Makefile", vlib.REPO + "/CMakeLists.txt"])]
        d = os.path.join(vlib.BUILD, "asan", "rlib-" + vlib._digest(files + [so, os.path.join(RD, "probe.c")]))
        if not os.path.exists(d):
            for old in glob.glob(os.path.join(vlib.BUILD, "asan", "rlib-*")):
                if time.time() - os.path.getmtime(old) > 3600:
                    shutil.rmtree(old, ignore_errors=True)
            t = d + ".%d" % os.getpid()
            st = os.path.join(t, "stage", "R", "CPPSAS7BDAT")
            os.makedirs(st + "/src")
            os.makedirs(os.path.join(t, "stage", "build", "R", "CPPSAS7BDAT", "src"))
            shutil.copytree(src + "/R", st + "/R")
            shutil.copy(src + "/NAMESPACE", st)
            shutil.copy(src + "/src/Makefile", st + "/src")
            txt = open(src + "/DESCRIPTION.in").read()
            m = re.search(r"\bVERSION\s+([0-9]+(?:\.[0-9]+)*)\s", open(vlib.REPO + "/CMakeLists.txt").read().split("project", 1)[-1])
            open(st + "/DESCRIPTION", "w").write(re.sub(r"@\w+@", m.group(1) if m else "0.0.1", txt))
            shutil.copy(so, os.path.join(t, "stage", "build", "R", "CPPSAS7BDAT", "src", "libRcppsas7bdat.so"))
            env = vlib.env_for(utf8=True, LD_PRELOAD=preload(), R_LIBS="")
            env["ASAN_OPTIONS"] += ":detect_stack_use_after_return=0"
            r = subprocess.run(["R", "CMD", "INSTALL", "--no-test-load", "--no-docs", "--no-html", "--library=" + t, st], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if r.returncode:
                shutil.rmtree(t, ignore_errors=True)
                raise vlib.HarnessError("the R package does not install: " + r.stdout[-3000:])
            shutil.rmtree(os.path.join(t, "stage"))
            subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-I" + rinc, os.path.join(RD, "probe.c"), "-o", os.path.join(t, "probe.so")], check=True)
            os.rename(t, d)
    return home, d


# ------------------------------------------------------------------ files of known content
class Model:
    def __init__(self, base):
        j = json.load(open(base + ".json"))
        self.file = base + ".sas7bdat"
        self.size = os.path.getsize(self.file)
        self.header, self.columns, self.rows = j["header"], j["columns"], j["rows"]
        self.damaged, self.outcome, self.outcome_rows, self.nul = j.get("damaged"), j["outcome"], j["outcome_rows"], j["nul"]
        self.peak, self.claimed = j["peak"], j["claimed_rows"]
        self.dates = {}
        self.names = [c[0] for c in self.columns]
        self.unique = len(set(self.names)) == len(self.names)
        self.kinds = [c[3] for c in self.columns]


def make_models(c, n, sub="models"):
    d = os.path.join(c.work, sub)
    os.makedirs(d, exist_ok=True)
    exe = vlib.build_harness("asan", ["p_bind.cpp"])
    env = vlib.env_for(BIND_OUT=d)
    vlib.run_cases(c, exe, n, env=env, hprop="BIND")
    ms = []
    for k in range(n):
        try:
            ms.append(Model(os.path.join(d, str(k))))
        except (OSError, ValueError):
            c.count("models_missing")  # the library broke on it: reported by run_cases
    return ms


def dbl(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def in_calendar(days):
    return -204531 <= days < 2936547


def off_calendar(days):
    return days < -204545 or days > 2936560


def same(kind, want, got, spec):
    """is got the logged form of the value?  want: hex string, int, bits of a double, or None"""
    tag, v = (got[0], got[1]) if got is not None else (None, None)
    if kind == "string":
        return tag == "s" and v == want
    if kind == "integer":
        return tag in spec["int_tags"] and (v == want if tag == "i" else dbl(v) == want)
    if kind == "number":
        if want is None or dbl(want) != dbl(want):
            return tag in spec["nan_tags"] and (tag is None or dbl(v) != dbl(v))
        return tag == "f" and v == want
    if spec["lang"] == "R" and got is not None:  # dates and times come as text
        tag, v = got = from_text(kind, got)
    if want is None:
        return got is None
    x = dbl(want)
    if x in (float("inf"), float("-inf")):
        return True
    days = x if kind == "date" else x / 86400
    if not in_calendar(days):
        return got is None if off_calendar(days) and kind != "time" and kind != "date" else True
    if got is None:
        return kind == "date" and x != int(x)
    fx = Fraction(x) * 10**6
    if kind == "date":
        return x != int(x) or (tag == "d" and v == int(x))
    if kind == "datetime":
        return tag == "dt" and abs(fx - v) <= Fraction(52, 100)
    if tag != "t" or not 0 <= v < US_DAY:
        return False
    return any(abs(fx - v - k * US_DAY) <= Fraction(52, 100) for k in (x // 86400 - 1, x // 86400, x // 86400 + 1))


def from_text(kind, got):
    """what a date or time written as text is"""
    try:
        t = bytes.fromhex(got[1]).decode("ascii") if got[0] == "s" else ""
        m = re.fullmatch({"date": r"(\d{4})-(\d\d)-(\d\d)()()()()", "time": r"()()()(\d\d):(\d\d):(\d\d)(?:\.(\d{6}))?",
                          "datetime": r"(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)(?:\.(\d{6}))?"}[kind], t)
        if not m:
            return ["text", t]
        g = [int(x or 0) for x in m.groups()]
        us = ((g[3] * 60 + g[4]) * 60 + g[5]) * 10**6 + g[6]
        if g[3] > 23 or g[4] > 59 or g[5] > 59:
            return ["text", t]
        days = 0 if kind == "time" else datetime.date(*g[:3]).toordinal() - datetime.date(1960, 1, 1).toordinal()
        return {"date": ["d", days], "time": ["t", us], "datetime": ["dt", days * US_DAY + us]}[kind]
    except (ValueError, UnicodeDecodeError, TypeError):
        return ["text", "?"]


def header_ok(m, h, spec):
    """None, or what is wrong in a logged header"""
    for k, w in m.header.items():
        if k == "be" or k not in h and k in spec.get("absent", ()):
            continue
        g = h.get(k, "absent")
        if k in ("date_created", "date_modified"):
            x = dbl(w)
            w2 = None if x != x or not in_calendar(x / 86400) else w
            if spec["lang"] == "R":
                if g == "" and (w2 is None or off_calendar(x / 86400)):
                    continue
                g = ["s", g]
            elif g is not None and g[0] == "text" and g[1] == "" and w2 is None:
                continue
            if not same("datetime", w2, g, spec):
                return "%s is %s, must be %r seconds" % (k, g, x)
        elif k == "endianness" or k == "platform" or k == "compression" or k == "format":
            if g not in (w, {"bit64": "64bits", "bit32": "32bits"}.get(w)):
                return "%s is %s, must be %s" % (k, g, w)
        elif g != w:
            return "%s is %r, must be %r" % (k, g, w)
    return None


def kept(m, job):
    """columns a filter keeps, as in C++: the list of included ones decides if there is one"""
    inc, exc = job.get("include"), job.get("exclude")
    return [k for k, n in enumerate(m.names) if (n in inc if inc else not (exc and n in exc))]


def spec_r(spec):
    return spec["lang"] == "R"


class Bad(Exception):
    def __init__(self, key, detail):
        self.key, self.detail = key, detail


def show(v):
    return json.dumps(v)[:200]


class Judge:
    """Follows the log of one job and the model of the reader and of the sinks, side by side."""

    def __init__(self, c, job, m, ev, spec):
        self.c, self.job, self.m, self.ev, self.spec = c, job, m, ev, spec
        self.at = 0
        self.idx = kept(m, job)
        self.cur, self.N = 0, len(m.rows)
        self.buf, self.calls = [], 0
        self.gave = []            # row numbers given last
        self.delivered = []       # row numbers given to the sink, in order
        self.cpp = False
        self.raised = False
        self.kind = {"pyrow": "row", "pychunk": "chunk", "pydata": "data"}.get(job["kind"], job["kind"])
        self.quiet = job["kind"] in ("pyrow", "pychunk", "pydata")  # the package's own sinks do not log
        self.size = job.get("chunk") if self.kind == "chunk" else 0

    def next(self, what):
        if self.at >= len(self.ev):
            raise Bad("call-missing", "the log ends where %s must follow" % what)
        e = self.ev[self.at]
        self.at += 1
        return e

    def peek(self):
        return self.ev[self.at] if self.at < len(self.ev) else None

    # what the sink sees
    def row_ok(self, row, vals):
        if len(vals) != len(self.idx):
            raise Bad("row-width", "row %d has %d values, must have %d" % (row, len(vals), len(self.idx)))
        for k, g in zip(self.idx, vals):
            w = self.m.rows[row][k]
            self.c.count("values")
            if not same(self.m.kinds[k], w, g, self.spec):
                raise Bad("value:" + self.m.kinds[k], "row %d column %s (%s): got %s, stored %s" % (
                    row, bytes.fromhex(self.m.names[k]), self.m.kinds[k], show(g), w if not isinstance(w, str) or self.m.kinds[k] == "string" else "%s = %r" % (w, dbl(w))))

    def table_ok(self, rows, cols, what, empty=()):
        want = {self.m.names[k]: k for k in self.idx}
        if set(cols) != set(want):
            raise Bad("columns", "%s has columns %s, must have %s" % (what, sorted(map(bytes.fromhex, cols)), sorted(map(bytes.fromhex, want))))
        for n, vals in cols.items():
            if len(vals) != len(rows):
                raise Bad("rows-lost", "%s holds %d values of %s, must hold %d" % (what, len(vals), bytes.fromhex(n), len(rows)))
        for j, row in enumerate(rows):
            self.row_ok_cols(row, cols, j, want, empty)

    def row_ok_cols(self, row, cols, j, want, empty):
        for n, k in want.items():
            w, g = self.m.rows[row][k], cols[n][j]
            if g is None and empty and self.m.kinds[k] == "number":  # NA in a column without any value
                g = ["f", "7ff80000000007a2"]
            self.c.count("values")
            if not same(self.m.kinds[k], w, g, self.spec):
                raise Bad("value:" + self.m.kinds[k], "row %d column %s (%s): got %s, stored %s" % (row, bytes.fromhex(n), self.m.kinds[k], show(g), w if not isinstance(w, str) or self.m.kinds[k] == "string" else "%s = %r" % (w, dbl(w))))

    def props_ok(self, e, what):
        if isinstance(e, list) and e and isinstance(e[0], str):
            raise Bad("exception" if e[0] == "exc" else "call-unexpected", "%s: %s" % (what, show(e)))
        err = header_ok(self.m, e[0], self.spec)
        if err:
            raise Bad("properties", what + ": " + err)
        want = [self.m.columns[k] for k in self.idx]
        if e[1] != want:
            raise Bad("columns", "%s: columns are %s, must be %s" % (what, show(e[1]), show(want)))
        self.c.count("properties")

    def callback(self, n):
        """a call of the sink happened: does it raise?"""
        k = self.calls
        self.calls += 1
        if k == self.job.get("raise_at"):
            e = self.next("the exception")
            if e[0] != "raise":
                raise Bad("call-missing", "expected the sink's exception, got " + show(e))
            self.raised = True
            self.c.count("exceptions_injected")
        self.c.count("callbacks")

    def set_properties(self):
        self.cpp = self.job.get("class") != "slots"
        if self.quiet:
            return
        e = self.next("set_properties")
        if e[0] != "props":
            raise Bad("call-missing", "expected set_properties, got " + show(e))
        self.props_ok(e[1:], "set_properties")
        self.callback(0)

    def give(self, rows):
        """the sink must be given these rows now"""
        self.delivered += rows
        self.gave = rows
        if self.quiet:
            return
        if self.kind == "row":
            e = self.next("push_row %d" % rows[0])
            if e[0] != "row":
                raise Bad("call-missing", "expected push_row(%d), got %s" % (rows[0], show(e)))
            if e[1] != rows[0]:
                raise Bad("row-order", "push_row(%r), must be row %d" % (e[1], rows[0]))
            self.row_ok(rows[0], e[2])
            if len(e) > 3 and e[3] != [self.m.names[k] for k in self.idx]:
                raise Bad("columns", "row %d has the names %s" % (rows[0], show(e[3])))
        elif self.kind == "chunk":
            e = self.next("push_rows %d..%d" % (rows[0], rows[-1]))
            if e[0] != "rows":
                raise Bad("call-missing", "expected push_rows(%d..%d), got %s" % (rows[0], rows[-1], show(e)))
            self.spec["chunk_range"](e, rows)
            self.table_ok(rows, e[-1], "chunk %d..%d" % (rows[0], rows[-1]))
            self.c.count("chunks")
        else:
            e = self.next("set_data")
            if e[0] != "data":
                raise Bad("call-missing", "expected set_data, got " + show(e))
            self.spec["data_range"](e, rows)
            self.table_ok(rows, e[-1], "data")
            self.c.count("whole_data")
        self.c.count("rows_delivered", len(rows))
        self.callback(len(rows))

    def push(self):
        row = self.cur
        self.cur += 1
        if self.kind == "row":
            self.give([row])
            return
        self.buf.append(row)
        if self.kind == "chunk" and len(self.buf) == self.size:
            self.flush()

    def flush(self):
        b, self.buf = self.buf, []
        if b:
            self.give(b)

    def end(self):
        self.cpp = False
        if self.kind != "row":
            self.flush()

    # what the caller does
    def op(self, o):
        """runs one call on the model; returns its result"""
        if o[0] == "all":
            while self.cur < self.N and not self.raised:
                self.push()
            if not self.raised:
                self.end()
            return None
        if o[0] == "row" or o[0] == "rows":
            n = 1 if o[0] == "row" else o[1]
            while n and self.cur < self.N and not self.raised:
                self.push()
                n -= 1
            if self.raised or not n:
                return True
            self.end()
            return False
        if o[0] == "skip":
            k = min(o[1], self.N - self.cur)
            self.cur += k
            if k == o[1]:
                return True
            self.end()
            return False
        if o[0] == "again":
            self.cur, self.buf = 0, []
            if self.kind == "data": self.delivered, self.gave = [], []
            self.set_properties()
            return None
        if o[0] == "flush" and not self.cpp:
            return None
        if o[0] == "end" or o[0] == "flush":
            self.end()
            return None
        if o[0] == "index":
            return self.cur
        if o[0] == "cpp":
            return self.cpp
        raise ValueError(o)

    def result(self, what, want):
        e = self.next("the result of " + what)
        if e[0] != "op" or e[1] != what:
            raise Bad("call-unexpected", "expected the result of %s, got %s" % (what, show(e)))
        got = e[2]
        if self.raised:
            if not (isinstance(got, list) and got and got[0] == "exc" and self.spec["exception"](got)):
                raise Bad("exception-lost", "%s: the sink's exception becomes %s" % (what, show(got)))
            return
        if isinstance(got, list) and got and got[0] == "exc":
            raise Bad("exception", "%s: %s" % (what, show(got)))
        if want != "any" and got != want:
            raise Bad("result", "%s returns %s, must be %s" % (what, show(got), show(want)))
        return got

    def run(self):
        job = self.job
        self.c.count("jobs")
        if job["kind"] == "read_sas":
            self.kind, self.quiet = {"pyrow": "row", "pychunk": "chunk", "pydata": "data", None: "data"}[job.get("sink")], True
            self.size = 10000
            self.set_properties()
            self.op(["all"])
            self.result("read_sas", None)
            if spec_r(self.spec):
                self.r_frames()
            else:
                self.frames()
            return
        self.set_properties()
        self.result("new", None)
        if self.raised:
            return self.after_failure()
        if job.get("keep_properties"):
            e = self.next("the properties")
            if e[0] != "kept":
                raise Bad("call-unexpected", "expected the properties, got " + show(e))
            self.props_ok(e[1:], "properties()")
        for o in job["ops"]:
            self.c.count("op_" + o[0])
            if o[0] == "props":
                got = self.result("props", "any")
                self.props_ok(got, "properties()")
                continue
            want = self.op(o)
            self.result(o[0], want)
            if self.raised:
                break
        e = self.next("the last index")
        if e[0] != "last" or not self.raised and e[1] != self.cur:
            raise Bad("index", "current_row_index is %s, must be %d" % (show(e), self.cur))
        if self.spec["lang"] == "python":
            self.python_end()
        else:
            self.r_end()
        if self.at != len(self.ev):
            raise Bad("call-unexpected", "after the end: " + show(self.ev[self.at]))

    def frames(self):
        """what the package's sinks made of the rows"""
        if self.kind != "row" and self.cpp and not self.job.get("late_df"):
            self.end()  # df flushes what is pending
        e = self.next("df")
        if not self.delivered:
            if isinstance(e[2], list) and e[2] and e[2][0] != "exc" and any(len(v) for v in e[2][1].values()):
                raise Bad("rows-invented", "df holds rows, none was read")
        else:
            if e[2] is None or e[2][0] == "exc":
                raise Bad("df", "df: " + show(e[2]))
            if e[2][0] and self.idx or self.idx:
                if sorted(e[2][0]) != sorted(self.m.names[k] for k in self.idx):
                    raise Bad("columns", "df has columns %s" % show(e[2][0]))
                self.spec["frame"](self, e[2])
            self.c.count("frames")
        e = self.next("columns")
        if e[2] != [self.m.names[k] for k in self.idx]:
            raise Bad("columns", "the sink's columns are %s" % show(e[2]))

    def python_end(self):
        job = self.job
        if self.quiet and not job.get("anon"):
            if job.get("late_df"):
                self.c.count("frames_after_reader")
                self.cpp = False
            if not self.raised:
                self.frames()
                e = self.next("the sink's properties")
                self.props_ok(e[2], "the sink's properties")
            self.cpp = False if self.kind == "row" else self.cpp
        if job.get("keep_properties"):
            e = self.next("the properties")
            self.props_ok(e[1:], "properties of a reader that is gone")
            e = self.next("the columns")
            if e[0] != "kept_columns" or e[1] != [self.m.columns[k] for k in self.idx]:
                raise Bad("columns", "columns of a reader that is gone: " + show(e))
        self.after_failure()

    def after_failure(self):
        if self.spec["lang"] != "python":
            return
        e = self.peek()
        if e and e[0] == "cpp":
            self.at += 1
            if e[1]:
                raise Bad("dangling", "the sink still refers to a reader that is gone")
            e = self.next("refs")
            if e[1] != 0:
                raise Bad("references", "%d references of the sink left" % e[1])
            self.c.count("reference_counts")
        while self.peek() and self.peek()[0] == "changed":
            raise Bad("changed", "a %s handed to the sink changed later" % self.peek()[1])
        if self.peek():
            e = self.next("sink_alive")
            if e[0] != "sink_alive":
                raise Bad("call-unexpected", "after the end: " + show(e))
            if e[1]:
                raise Bad("references", "the sink is never freed")

    def r_end(self):
        if self.quiet and not self.job.get("anon"):
            self.r_frames()
        while self.peek() and self.peek()[0] == "changed":
            raise Bad("changed", "an object handed to the sink changed later")

    def r_frames(self):
        e = self.next("df")
        df = e[2]
        if df is None and (self.kind == "row" or self.gave):
            raise Bad("df", "df is missing")
        if isinstance(df, list) and df and df[0] == "exc":
            raise Bad("df", "df: " + show(df))
        if self.kind != "row" and not self.gave and df is not None and df[3]:
            raise Bad("rows-invented", "df holds rows, none was read")
        if df is not None and self.idx:
            if df[2] != "frame":
                raise Bad("df", "df is a %s" % df[2])
            if sorted(df[0]) != sorted(self.m.names[k] for k in self.idx):
                raise Bad("columns", "df has columns %s" % show(df[0]))
            if self.kind == "row":
                rows = self.m.header["row_count"]
                read = {k: v for v, k in enumerate(self.delivered)}
                for n, vals in df[1].items():
                    if len(vals) != rows:
                        raise Bad("rows-lost", "df has %d rows, must have %d" % (len(vals), rows))
                    for k, v in enumerate(vals):
                        if k not in read and v is not None and not (v[0] == "f" and dbl(v[1]) != dbl(v[1])):
                            raise Bad("rows-invented", "df holds %s in row %d, which was not read" % (show(v), k))
                cols = {n: [vals[k] for k in self.delivered] for n, vals in df[1].items()}
                self.table_ok(self.delivered, cols, "df", {"f"})
            else:
                self.table_ok(self.delivered if self.kind == "chunk" else self.gave, df[1], "df")
            self.c.count("frames")
        e = self.next("columns")
        if e[2] != [self.m.names[k] for k in self.idx]:
            raise Bad("columns", "the sink's columns are %s" % show(e[2]))
        e = self.next("the sink's properties")
        self.props_ok(e[2], "the sink's properties")


def judge_damaged(c, job, m, ev, spec):
    """damaged files: whatever the C++ reader does with them"""
    c.count("damaged_jobs")
    ops = [e for e in ev if e[0] == "op" and e[1] in ("new", "all", "read_sas")]
    exc = [e for e in ops if isinstance(e[2], list) and e[2] and e[2][0] == "exc"]
    if m.outcome == "many":
        return
    if any("embedded nul" in e[2][2] for e in exc):  # R has no such strings
        c.count("damaged_with_nul")
        return
    memory = any("alloc" in e[2][2] or "emory" in e[2][2] + e[2][1] or "length" in e[2][2] or "resize" in e[2][2] or "reserve" in e[2][2] for e in exc)
    if memory:
        c.count("damaged_out_of_memory")
        return
    if exc:
        c.count("damaged_refused")
    if job["kind"] != "row" or not ops:
        return
    bad_new = bool(exc) and exc[0][1] == "new"
    if bad_new != (m.outcome == "refused"):
        raise Bad("damaged-outcome", "%s: C++ %s, here %s (%s)" % (m.damaged, m.outcome, show(ops), show(ops)))
    if bad_new:
        return
    rows = sum(1 for e in ev if e[0] == "row")
    if bool(exc) != (m.outcome == "failed") or rows != m.outcome_rows:
        raise Bad("damaged-outcome", "%s: C++ %s with %d rows, here %d rows and %s" % (m.damaged, m.outcome, m.outcome_rows, rows, show(ops)))


# ------------------------------------------------------------------ jobs
def random_ops(rnd, n, kind):
    ops, cur = [], 0
    shape = rnd.random()
    if shape < 0.3:
        ops = [["all"]]
    elif shape < 0.4:
        ops = [["row"]] * min(n + 1, 40)
    elif shape < 0.5:
        k = rnd.randint(1, 9)
        ops = [["rows", k]] * min((n + k) // k, 30)
    else:
        for _ in range(rnd.randint(1, 10)):
            k = rnd.random()
            q = rnd.choice([0, 1, 2, 3, rnd.randint(0, n + 2), rnd.randint(0, max(1, n // 3))])
            if k < 0.3: ops.append(["row"])
            elif k < 0.6: ops.append(["rows", q])
            elif k < 0.85: ops.append(["skip", q])
            elif k < 0.92: ops.append(["end"])
            else: ops.append(["all"])
    out = []
    for o in ops:
        out.append(o)
        if rnd.random() < 0.08: out.append(["index"])
        if rnd.random() < 0.03: out.append(["props"])
    tail = rnd.random()
    if tail < 0.15: out += [["all"], ["row"]]
    elif tail < 0.25: out += [["all"], ["end"], ["end"]]
    elif tail < 0.4: out.append(["all"])
    return out


def random_filter(rnd, m, job):
    if rnd.random() < 0.6:
        return
    for k in ("include", "exclude"):
        x = rnd.random()
        if x < 0.4:
            continue
        names = [n for n in m.names if rnd.random() < rnd.choice([0.2, 0.5, 0.9])]
        if rnd.random() < 0.2: names.append("6e6f207375636820636f6c756d6e")
        if rnd.random() < 0.1: names.append("")
        if rnd.random() < 0.06: names = [""]
        if rnd.random() < 0.1: names += names[:2]
        rnd.shuffle(names)
        job[k] = names


def wide_filter(rnd, m, job, k):
    """more than 256 names in a filter"""
    for x in ("include", "exclude"): job.pop(x, None)
    out = set(rnd.sample(m.names, rnd.randint(1, 3)))
    if k: job["include" if k == 1 else "exclude"] = [n for n in m.names if n not in out]
    if k and rnd.random() < 0.5: rnd.shuffle(job["include" if k == 1 else "exclude"])


def many_rows(c, m, rnd, jobs, k, kinds):
    """jobs on a file with more than 65536 rows"""
    c.count("files_over_64k_rows")
    n = len(m.rows)
    for kind in kinds:
        job = dict(id=len(jobs), model=k, file=m.file, kind=kind, ops=[["rows", rnd.randint(0, n)], ["index"], ["skip", rnd.randint(0, n // 4)], ["index"], ["all"], ["index"]])
        if rnd.random() < 0.5 or kind == "data": job["ops"] = [["all"], ["index"]]
        if kind == "chunk": job["chunk"], job["ops"] = rnd.choice([n, 65537, 65536 + rnd.randint(0, 60)]), [["all"], ["index"]]
        if kind == "pychunk": job["chunk"] = rnd.choice([1000, 10000, n // 7])
        if kind.startswith("py"): job["ops"] = [["all"]]
        jobs.append(job)


def other_sinks(rnd, job, python):
    """sinks with the methods of other kinds too, and sinks used twice"""
    if job["kind"] not in ("row", "chunk", "data", "pyrow", "pychunk") or "ops" not in job:
        return
    if job["kind"] in ("row", "chunk", "data") and rnd.random() < 0.25:
        job["class"] = rnd.choice(["more", "slots"]) if python else "more"
        if job["kind"] == "data": job["chunk"] = 3
    if rnd.random() < 0.12 and not job.get("anon") and not job.get("keep_properties") and (python or job["kind"] != "pyrow"):
        again = rnd.choice([[["all"]], [["row"], ["row"]], [["rows", 3], ["end"]], [["skip", 1], ["all"], ["row"]], []] + ([[["cpp"]], [["row"], ["cpp"], ["flush"], ["row"]], [["rows", 2], ["flush"], ["cpp"], ["all"]]] if python else []))
        job["ops"] = job["ops"] + [["again"]] + again
    if python and rnd.random() < 0.06 and job["kind"] in ("row", "chunk", "data"):
        job["ops"] = job["ops"] + [["flush"], ["row"], ["index"]]


def random_chunk(rnd, n):
    return rnd.choice([1, 1, 2, 3, 4, 7, n or 1, n + 1, max(1, n - 1), max(1, n // 2), max(1, n // 2), 10000, 0])


# ------------------------------------------------------------------ running drivers
def run_driver(c, cmd, jobs, env, lang, timeout):
    """runs the jobs in one process at a time; returns {id: result}; crashes are violations"""
    done, todo, crashes = {}, list(jobs), 0
    wd = tempfile.mkdtemp(prefix="d", dir=c.work)
    while todo and crashes < 3:
        jf, lf = os.path.join(wd, "jobs"), os.path.join(wd, "log")
        json.dump(todo, open(jf, "w"))
        if os.path.exists(lf):
            os.unlink(lf)
        with open(os.path.join(wd, "err"), "w+", errors="replace") as err:
            p = subprocess.Popen(cmd + [jf, lf], stdout=err, stderr=err, env=env, cwd=wd, start_new_session=True, stdin=subprocess.DEVNULL)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = None
            err.seek(0)
            e = err.read()
        c.count("driver_runs")
        if "stack imbalance in" in e:  # what R says of a call that protects more objects than it releases, or fewer
            at = e.index("stack imbalance in")
            c.violation("protection-stack", "%s reports %d times: %s" % (lang, e.count("stack imbalance in"), e[at:at + 60].split("\n")[0]))
        lines = open(lf, errors="replace").read().split("\n") if os.path.exists(lf) else []
        begun, finished = None, lines[-2:-1] == ["DONE"] or "DONE" in lines
        for l in lines:
            if l.startswith("begin "):
                begun = int(l[6:])
            elif l.startswith("{"):
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                done[r["id"]] = r
        if finished and rc == 0:
            break
        if finished:
            c.violation("crash:" + vlib.crash_key(rc if rc is not None else -9, e), "%s, when the interpreter stops: %s" % (lang, vlib.trim_err(e)))
            break
        if begun is None:
            raise vlib.HarnessError("%s driver died before its first job: rc=%s %s" % (lang, rc, e[-1500:]))
        job = next(j for j in todo if j["id"] == begun)
        if rc is None:
            c.inconclusive.append("%s driver: job %d takes longer than %d s" % (lang, begun, timeout)) if crashes == 0 and False else c.violation("hang", "%s job %d makes no progress: %s" % (lang, begun, show(job)), job=job)
            return done
        if begun in done or ("Error" in e[-3000:] and "Sanitizer" not in e and "Traceback" in e):
            raise vlib.HarnessError("%s driver failed: %s" % (lang, e[-2500:]))
        dst = os.path.join(c.rep, "%s-job%d.sas7bdat" % (c.prop, begun))
        if os.path.exists(job["file"]):
            shutil.copy(job["file"], dst)
        c.violation("crash:" + vlib.crash_key(rc, e), "%s job %s: %s" % (lang, show(dict(job, file="")), vlib.trim_err(e) or e[-800:]), job=job, file=dst)
        crashes += 1
        at = [j["id"] for j in todo].index(begun)
        todo = todo[at + 1:]
    return done


def judge_all(c, jobs, models, done, spec):
    for job in jobs:
        r = done.get(job["id"])
        if r is None:
            c.count("jobs_without_log")
            continue
        m = models[job["model"]] if job.get("model") is not None else None
        try:
            if job.get("expect"):
                job["expect"](job, r["ev"])
            elif m.damaged:
                judge_damaged(c, job, m, r["ev"], spec)
            else:
                Judge(c, job, m, r["ev"], spec).run()
                c.inputs.add("%s/%s" % (m.file, job["kind"]))
                ops = [o[0] for o in job.get("ops", [])]
                c.features.add(json.dumps([job["kind"], job.get("chunk") in (1, 2, 3), bool(job.get("include")), bool(job.get("exclude")), ops[:6], sorted(set(m.kinds)), job.get("raise_at") is not None]))
        except (Bad, TypeError, AttributeError, KeyError, IndexError, ValueError) as b:
            if not isinstance(b, Bad):  # a log of another shape than the one every job has
                tb = traceback.extract_tb(b.__traceback__)[-1]
                b = Bad("log-shape", "%r in %s: %s" % (b, tb.name, show(r["ev"][-6:])))
            dst = os.path.join(c.rep, "%s-job%d.sas7bdat" % (c.prop, job["id"]))
            if os.path.exists(job["file"]):
                shutil.copy(job["file"], dst)
            j = {k: v for k, v in job.items() if k != "expect"}
            c.violation(b.key, "%s; job %s" % (b.detail, json.dumps(dict(j, file=os.path.basename(job["file"])))[:400]), job=j, file=dst)
        grown = r.get("grown")
        if grown and not (m and m.damaged):
            c.count("leak_measurements")
            n = job["leak"]
            limit = {"python": (n, 150 * n), "R": (n if job.get("raise_at") is None else 3 * n, n, 16 * n)}[spec["lang"]]  # R and Rcpp keep a cell for each error
            if os.environ.get("BIND_DEBUG"): print(job["kind"], grown)
            if any(min(map(float, g)) >= x for g, x in zip(grown, limit)):
                c.violation("leak", "%d repetitions of job %s leave %s (%s)" % (n, json.dumps(dict(job, file=os.path.basename(job["file"])), default=str)[:300], grown, "blocks, bytes" if spec["lang"] == "python" else "R cells, R vector cells, bytes"))

def refused(job, ev):
    e = next((e for e in ev if e[0] == "op" and e[1] in ("new", "read_sas")), None)
    if not e or not isinstance(e[2], list) or e[2][0] != "exc":
        raise Bad("not-refused", "%s is accepted: %s" % (job["why"], show(ev)))


def typed(job, ev):
    """a selection that is not a list of strings is refused or does what it says, it is never ignored"""
    e = next((e for e in ev if e[0] == "op" and e[1] == "new"), None)
    if e and isinstance(e[2], list) and e[2][0] == "exc":
        return
    p = next((e for e in ev if e[0] == "props"), None)
    if not e or not p or job["as"] in ("number", "numbers", "none", "nested", "true", "bytes") or [c[0] for c in p[2]] != job["left"]:
        raise Bad("filter-ignored", "%s: a %s is accepted, and the columns are %s" % ("include" if "include" in job else "exclude", job["as"], show(p)))


def typed_jobs(models):
    out = []
    m = next((m for m in models if not m.damaged and m.unique and 2 <= len(m.names) < 12 and all(m.names)), None)
    if m is None:
        return out
    for how in ("tuple", "set", "frozenset", "dict", "str", "iter", "bytes", "number", "numbers", "none", "nested", "true"):
        out.append(dict(kind="row", ops=[], file=m.file, include=[m.names[0]], left=m.names[:1], expect=typed, **{"as": how}))
        out.append(dict(kind="row", ops=[], file=m.file, exclude=[m.names[0]], left=m.names[1:], expect=typed, **{"as": how}))
    return out


def bad_jobs(models, rnd, work):
    """constructions that must be refused"""
    ok = [k for k, m in enumerate(models) if not m.damaged and m.unique]
    m = models[ok[0]]
    empty, short = os.path.join(work, "empty.sas7bdat"), os.path.join(work, "short.sas7bdat")
    open(empty, "wb").close()
    open(short, "wb").write(open(m.file, "rb").read()[:150])
    base = dict(kind="row", ops=[], chunk=3, expect=refused)
    return [dict(base, file=os.path.join(work, "no-such-file"), why="a missing file"), dict(base, file=work, why="a directory"),
            dict(base, file=empty, why="an empty file"), dict(base, file=short, why="half a header"),
            dict(base, file=m.file, kind="none", why="an object that is no sink"),
            dict(base, file=empty, kind="chunk", why="an empty file"), dict(base, file=empty, kind="data", why="an empty file"),
            dict(base, file=short, kind="read_sas", why="half a header")]


# ------------------------------------------------------------------ P20
def py_chunk_range(e, rows):
    if [e[1], e[2]] != [rows[0], rows[-1]]:
        raise Bad("chunk-range", "push_rows(%r, %r), holds the rows %d..%d" % (e[1], e[2], rows[0], rows[-1]))


def py_frame(j, df):
    j.table_ok(j.delivered, df[1], "df")
    if df[0] != [j.m.names[k] for k in j.idx]:
        raise Bad("columns", "df has the columns in another order")


PYSPEC = dict(lang="python", int_tags=("i",), nan_tags=("f",), chunk_range=py_chunk_range, data_range=lambda e, rows: None,
              exception=lambda got: got[1] == "SinkError" and got[2] == "same", frame=py_frame, absent=())


def python_check(c, p, cases=None):
    n = cases or (2000 if c.tier == "quick" else 30000)
    pkg = build_python()
    models = make_models(c, n)
    rnd = random.Random(c.seed * 7919 + 20)
    jobs = []
    for k, m in enumerate(models):
        c.count("damaged_files" if m.damaged else "files")
        if len(m.rows) > 60000:
            many_rows(c, m, rnd, jobs, k, ["row", "chunk", "data", "pyrow", "pychunk", "pydata"])
            continue
        wide = len(m.names) > 255 and not m.damaged and len(m.rows) < 5
        c.count("files_over_255_columns", wide)
        for kind in ["row", "chunk", "data", "pyrow", "pychunk", "pydata"] if wide else range(3 if not m.damaged else 2):
            if not wide: kind = rnd.choice(["row", "row", "chunk", "chunk", "data", "pyrow", "pychunk", "pydata", "read_sas"])
            if m.outcome == "memory" or m.peak > 100 << 20:
                c.count("damaged_files_with_absurd_sizes")  # the sanitizer ends the process where new would throw
                break
            if not m.unique or m.damaged and m.claimed > 100000:
                kind = "row"
            job = dict(id=len(jobs), model=k, file=m.file, kind=kind)
            if kind in ("chunk", "pychunk"):
                job["chunk"] = random_chunk(rnd, len(m.rows))
            if m.damaged:
                job["ops"] = [["all"]]
            else:
                random_filter(rnd, m, job)
                if kind == "read_sas":
                    job["sink"] = rnd.choice([None, "pyrow", "pychunk", "pydata"])
                else:
                    job["ops"] = random_ops(rnd, len(m.rows), kind)
                    if kind == "pydata":  # its df is what the last end of data delivered
                        job["ops"] = [o for k, o in enumerate(job["ops"]) if o[0] != "end" or all(x[0] in ("end", "index", "props") for x in job["ops"][k:])]
                if kind in ("row", "chunk", "data") and rnd.random() < 0.2:
                    job["raise_at"] = rnd.choice([0, 1, 2, rnd.randint(0, len(m.rows) + 1)])
                if rnd.random() < 0.15: job["keep_properties"] = True
                if kind in ("row", "chunk", "data") and rnd.random() < 0.1: job["anon"] = True
                if rnd.random() < 0.12 and not (kind in ("pychunk", "pydata")): job["ops"] = job.get("ops", []) + [["cpp"]] if kind in ("row", "chunk", "data") else job.get("ops", [])
                if kind in ("pyrow", "pychunk", "pydata") and rnd.random() < 0.3 and "keep_properties" not in job: job["late_df"] = True
                other_sinks(rnd, job, True)
                if wide: wide_filter(rnd, m, job, len(jobs) % 3)
            jobs.append(job)
    for b in bad_jobs(models, rnd, c.work) + typed_jobs(models):
        c.count("filters_of_other_types", "as" in b)
        jobs.append(dict(b, id=len(jobs), model=None))
    leaks = []
    for k, j in enumerate(rnd.sample([j for j in jobs if j.get("model") is not None and not models[j["model"]].damaged and len(models[j["model"]].rows) * len(models[j["model"]].names) < 150], 48 if c.tier == "quick" else 400)):
        leaks.append(dict(j, id=len(jobs), leak=24))
        jobs.append(leaks[-1])
    leak_ids = {j["id"] for j in leaks}
    wire = [{k: v for k, v in j.items() if k not in ("expect", "why", "left")} for j in jobs]
    env = vlib.env_for(utf8=True, PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1",
                       LD_PRELOAD=preload())
    env["ASAN_OPTIONS"] += ":max_allocation_size_mb=1500:detect_stack_use_after_return=0"
    cmd = ["/usr/bin/python3", "-s", os.path.join(PY, "driver.py"), pkg, os.path.join(PY, "stub")]
    part = lambda l: [l[w::vlib.NPROC] for w in range(vlib.NPROC)]
    parts = part([j for j in wire if j["id"] not in leak_ids])
    for x in parts:
        if x: x[-1]["leave"] = True
    runs = [(x, env) for x in parts] + [(x, dict(env, PYTHONMALLOC="pymalloc")) for x in part([j for j in wire if j["id"] in leak_ids])]
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        res = list(ex.map(lambda x: run_driver(c, cmd, x[0], x[1], "Python", 240 if c.tier == "quick" else 7200), [x for x in runs if x[0]]))
    done = {}
    for r in res:
        done.update(r)
    judge_all(c, jobs, models, done, PYSPEC)
    c.extra["distinct_inputs"], c.extra["distinct_features"] = len(c.inputs), len(c.features)
    return c.finish(c.n.get("jobs", 0), len(c.features), p["rule"], [] if cases else p["floors"], p["assumptions"])


# ------------------------------------------------------------------ P21
def r_range(e, rows):
    if [v[1] for v in e[1]] != rows:
        raise Bad("chunk-range", "row_index is %s, must be %d..%d" % (show(e[1]), rows[0], rows[-1]))


RSPEC = dict(lang="R", int_tags=("i", "f"), nan_tags=("f",), chunk_range=r_range, data_range=r_range,
             exception=lambda got: "sink error in call" in got[2], absent=("format",))


def r_check(c, p, cases=None):
    n = cases or (640 if c.tier == "quick" else 12000)
    home, pkg = build_r()
    models = make_models(c, n)
    rnd = random.Random(c.seed * 7919 + 21)
    jobs = []
    for k, m in enumerate(models):
        if m.nul and not m.damaged:
            c.count("files_with_nul_texts")
            continue
        c.count("damaged_files" if m.damaged else "files")
        if len(m.rows) > 60000:
            many_rows(c, m, rnd, jobs, k, ["chunk", "data", "pychunk", "pydata"])
            continue
        wide = len(m.names) > 255 and not m.damaged and len(m.rows) < 3
        c.count("files_over_255_columns", wide)
        for kind in ["row", "chunk", "data", "pyrow", "pychunk", "pydata"] if wide else range(2):
            if not wide: kind = rnd.choice(["row", "row", "chunk", "chunk", "data", "pyrow", "pychunk", "pydata", "read_sas"])
            if m.outcome == "memory" or m.peak > 100 << 20:
                c.count("damaged_files_with_absurd_sizes")
                break
            if not m.unique or m.damaged and m.claimed > 100000:
                kind = "row"
            if len(m.rows) * len(m.names) > 2500 and kind == "pyrow":
                kind = "row"  # a data.frame filled value by value
            job = dict(id=len(jobs), model=k, file=m.file, kind=kind)
            if kind in ("chunk", "pychunk"):
                job["chunk"] = random_chunk(rnd, len(m.rows))
                if kind == "pychunk" and len(m.rows) > 60:
                    job["chunk"] = max(job["chunk"], len(m.rows) // 7)
            if m.damaged:
                job["ops"] = [["all"]]
            else:
                random_filter(rnd, m, job)
                if kind != "read_sas":
                    job["ops"] = random_ops(rnd, len(m.rows), kind)
                if kind in ("row", "chunk", "data") and rnd.random() < 0.2:
                    job["raise_at"] = rnd.choice([0, 1, 2, rnd.randint(0, len(m.rows) + 1)])
                if kind in ("row", "chunk", "data") and rnd.random() < 0.1: job["anon"] = True
                if rnd.random() < 0.1 and len(m.rows) < 30: job["gc"] = True
                if rnd.random() < 0.3: job["late_df"] = True
                if len(m.rows) * len(m.names) < 60 and rnd.random() < 0.12:
                    job["torture"], job["torture_step"] = True, rnd.choice([23, 37, 61])
                other_sinks(rnd, job, False)
                if wide: wide_filter(rnd, m, job, len(jobs) % 3)
            jobs.append(job)
    for b in bad_jobs(models, rnd, c.work):
        jobs.append(dict(b, id=len(jobs), model=None))
    leaks = []
    for j in rnd.sample([j for j in jobs if j.get("model") is not None and not models[j["model"]].damaged and len(models[j["model"]].rows) * len(models[j["model"]].names) < 100 and not j.get("torture") and not j.get("gc")], 16 if c.tier == "quick" else 160):
        leaks.append(dict(j, id=len(jobs), leak=24))
        jobs.append(leaks[-1])
    wire = [{k: v for k, v in j.items() if k not in ("expect", "why", "left")} for j in jobs]
    env = vlib.env_for(utf8=True, LD_PRELOAD=preload(), R_HOME=home, LD_LIBRARY_PATH=home + "/lib", R_LIBS="", R_SHARE_DIR="/usr/share/R/share", R_INCLUDE_DIR="/usr/share/R/include", R_DOC_DIR="/usr/share/R/doc")
    env["ASAN_OPTIONS"] += ":max_allocation_size_mb=1500:detect_stack_use_after_return=0"
    cmd = [home + "/bin/exec/R", "--vanilla", "--no-echo", "--file=" + os.path.join(RD, "driver.R"), "--args", pkg, pkg + "/probe.so"]
    parts = [wire[w::vlib.NPROC] for w in range(vlib.NPROC)]
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        res = list(ex.map(lambda x: run_driver(c, cmd, x, env, "R", 300 if c.tier == "quick" else 7200), [x for x in parts if x]))
    done = {}
    for r in res:
        done.update(r)
    for r in done.values():
        for e in r["ev"]:
            if e[0] == "op" and isinstance(e[2], list) and e[2] and e[2][0] == "exc":
                e[2][2] = bytes.fromhex(e[2][2]).decode("utf-8", "replace")
    judge_all(c, jobs, models, done, RSPEC)
    c.extra["distinct_inputs"], c.extra["distinct_features"] = len(c.inputs), len(c.features)
    return c.finish(c.n.get("jobs", 0), len(c.features), p["rule"], [] if cases else p["floors"], p["assumptions"])
