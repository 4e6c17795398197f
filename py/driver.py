"""Runs jobs against the Python module, under a sanitizer, and logs everything the sinks and the callers see.
usage: driver.py MODULES STUBS JOBS LOG"""
import ctypes, datetime, gc, json, struct, sys, weakref
sys.path[:0] = [sys.argv[1], sys.argv[2]]
import pycppsas7bdat as P
from pycppsas7bdat import Reader
import pycppsas7bdat.sink as PS
from pycppsas7bdat.read_sas import read_sas

EPOCH = datetime.datetime(1960, 1, 1)
US = datetime.timedelta(microseconds=1)
try:
    allocated = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    allocated.restype = ctypes.c_size_t
except AttributeError:
    allocated = None


def hexs(s):
    return s.encode("utf-8", "surrogateescape").hex()


def text(h):
    return bytes.fromhex(h).decode("utf-8", "surrogateescape")


def val(v):
    t = type(v)
    if v is None: return None
    if t is bytes: return ["s", v.hex()]
    if t is float: return ["f", struct.pack(">d", v).hex()]
    if t is int: return ["i", v]
    if t is datetime.datetime: return ["dt", (v - EPOCH) // US if v.tzinfo is None else "zone"]
    if t is datetime.date: return ["d", v.toordinal() - EPOCH.toordinal()]
    if t is datetime.time: return ["t", ((v.hour * 60 + v.minute) * 60 + v.second) * 1000000 + v.microsecond if v.tzinfo is None else "zone"]
    return ["?", repr(v)[:80]]


def column(c):
    return [hexs(c.name), hexs(c.label), hexs(c.format), str(c.type)]


def props(p):
    h = {}
    for k in ("format", "endianness", "platform", "compression"): h[k] = str(getattr(p, k))
    for k in ("date_created", "date_modified"): h[k] = val(getattr(p, k))
    for k in ("dataset_name", "encoding", "file_type", "sas_release", "sas_server_type", "os_type", "os_name", "creator", "creator_proc"): h[k] = hexs(getattr(p, k))
    for k in ("header_length", "page_length", "page_count", "row_length", "row_count", "column_count", "col_count_p1", "col_count_p2", "mix_page_row_count", "lcs", "lcp"): h[k] = getattr(p, k)
    return [h, [column(c) for c in p.columns]]


class SinkError(Exception):
    pass


class Log(object):
    """what a job's sinks and callers saw"""
    def __init__(self, job):
        self.ev, self.calls, self.raise_at, self.raised, self.held = [], 0, job.get("raise_at"), None, []

    def add(self, *e):
        self.ev.append(list(e))

    def call(self):
        k = self.calls
        self.calls += 1
        if k == self.raise_at:
            self.raised = SinkError("call %d" % k)
            self.add("raise", k)
            raise self.raised


class Base(object):
    __slots__ = ("log", "chunk_size", "__weakref__")  # a sink need not take other attributes

    def __init__(self, log):
        self.log = log

    def set_properties(self, properties):
        log = self.log
        log.add("props", *props(properties))
        log.held.append(properties)
        log.call()


class Row(Base):
    __slots__ = ()

    def push_row(self, irow, row):
        log = self.log
        log.add("row", irow, [val(v) for v in row])
        log.held.append((log.ev[-1], row, None))
        log.call()


class Chunk(Base):
    __slots__ = ()

    def push_rows(self, istartrow, iendrow, rows):
        log = self.log
        log.add("rows", istartrow, iendrow, {hexs(k): [val(v) for v in vs] for k, vs in rows.items()})
        log.held.append((log.ev[-1], None, rows))
        log.call()


class Data(Base):
    __slots__ = ()

    def set_data(self, rows):
        log = self.log
        log.add("data", {hexs(k): [val(v) for v in vs] for k, vs in rows.items()})
        log.held.append((log.ev[-1], None, rows))
        log.call()


class Plain(object):
    """what most sinks are"""


class PlainRow(Row, Plain): pass
class PlainChunk(Chunk, Plain): pass
class PlainData(Data, Plain): pass
class RowToo(Plain, Row, Chunk): pass  # without a chunk_size
class ChunkToo(Plain, Chunk, Data, Row): pass
class DataToo(Plain, Data, Row): pass


KINDS = {None: {"row": PlainRow, "chunk": PlainChunk, "data": PlainData}, "slots": {"row": Row, "chunk": Chunk, "data": Data},
         "more": {"row": RowToo, "chunk": ChunkToo, "data": DataToo}}


def make_sink(job, log):
    kind = job["kind"]
    if kind == "none": return object()
    if kind == "pyrow": return PS.SinkByRow()
    if kind == "pychunk": return PS.SinkByChunk() if job.get("chunk") is None else PS.SinkByChunk(job["chunk"])
    if kind == "pydata": return PS.SinkWholeData()
    s = KINDS[job.get("class")][kind](log)
    if kind == "chunk" or kind == "data" and job.get("class") == "more": s.chunk_size = job.get("chunk")
    return s


def frame(df):
    return None if df is None else [[hexs(c) for c in df.columns], {hexs(c): [val(v) for v in df[c]] for c in df.columns}]


def guard(log, what, f):
    try:
        log.add("op", what, f())
        return True
    except BaseException as e:  # whatever comes out
        log.add("op", what, ["exc", type(e).__name__, "same" if e is log.raised else str(e)[:200]])
        return False


def run(job, log):
    sink = make_sink(job, log)
    kw = {k: [text(x) for x in job[k]] for k in ("include", "exclude") if job.get(k) is not None}
    for k in kw:  # something else than a list
        how = job.get("as")
        if how: kw[k] = {"tuple": tuple, "set": set, "frozenset": frozenset, "dict": dict.fromkeys, "str": lambda l: l[0], "iter": iter, "bytes": lambda l: l[0].encode(), "number": lambda l: 7, "numbers": lambda l: l + [7], "none": lambda l: l + [None], "nested": lambda l: [l], "true": lambda l: True}[how](kw[k])
    refs0 = sys.getrefcount(sink)
    if job["kind"] == "read_sas":
        return
    box = []

    def new():
        box.append(Reader(job["file"], sink, **kw))
    if not guard(log, "new", new):
        box[:] = []
        log.raised, log.held = None, []
        gc.collect()
        if job["kind"] != "none":
            log.add("cpp", hasattr(sink, "_cpp"))
        log.add("refs", sys.getrefcount(sink) - refs0)
        return
    r = box.pop()
    keep = None
    anon = job.get("anon")

    def again():
        box.append(Reader(job["file"], wr(), **kw))
    wr = weakref.ref(sink) if job["kind"] != "none" else None
    if anon:
        sink = None
    if job.get("keep_properties"):
        keep = r.properties()
        log.add("kept", *props(keep))
    for op in job["ops"]:
        o = op[0]
        if o == "all": ok = guard(log, o, r.read_all)
        elif o == "row": ok = guard(log, o, r.read_row)
        elif o == "rows": ok = guard(log, o, lambda: r.read_rows(op[1]))
        elif o == "skip": ok = guard(log, o, lambda: r.skip(op[1]))
        elif o == "end": ok = guard(log, o, r.end_of_data)
        elif o == "index": ok = guard(log, o, lambda: r.current_row_index)
        elif o == "props": ok = guard(log, o, lambda: props(r.properties()))
        elif o == "cpp": ok = guard(log, o, lambda: hasattr(wr(), "_cpp"))
        elif o == "flush": ok = guard(log, o, lambda: wr()._cpp.flush_sink() if hasattr(wr(), "_cpp") else None)
        elif o == "again":  # another reader with the same sink, and the first one goes
            ok = guard(log, o, again)
            if ok: r = box.pop()
        if not ok:
            break
    cols = None
    if keep is not None:
        cols = keep.columns
    log.add("last", r.current_row_index)
    if job.get("late_df"):  # the reader goes away first
        del r
    if job["kind"] in ("pyrow", "pychunk", "pydata") and not anon:
        guard(log, "df", lambda: frame(sink.df))
        guard(log, "columns", lambda: [hexs(c) for c in sink.columns])
        guard(log, "sink_properties", lambda: props(sink.properties))
    if not job.get("late_df"):
        del r
    if keep is not None:  # properties and columns outlive their reader
        gc.collect()
        log.add("kept", *props(keep))
        it = [c for c in cols]
        del keep, cols
        log.add("kept_columns", [column(c) for c in it])
        del it
    log.raised, held, log.held = None, log.held, []
    held = [h for h in held if isinstance(h, tuple)]
    gc.collect()
    if not anon and job["kind"] != "none":
        log.add("cpp", hasattr(sink, "_cpp"))
        log.add("refs", sys.getrefcount(sink) - refs0)
    for e, row, rows in held:  # what a sink was given stays as it was
        now = [val(v) for v in row] if row is not None else {hexs(k): [val(v) for v in vs] for k, vs in rows.items()}
        if now != e[-1]:
            log.add("changed", e[0])
    sink = held = row = rows = e = None
    gc.collect()
    log.add("sink_alive", wr is not None and wr() is not None)


def run_read_sas(job, log):
    kw = {k: [text(x) for x in job[k]] for k in ("include", "exclude") if job.get(k) is not None}
    out = []

    def go():
        if job.get("sink"):
            kw["sink"] = {"pyrow": PS.SinkByRow, "pychunk": PS.SinkByChunk, "pydata": PS.SinkWholeData}[job["sink"]]()
        out.append(read_sas(job["file"], **kw))
    if guard(log, "read_sas", go):
        s = out[0]
        guard(log, "df", lambda: frame(s.df))
        guard(log, "columns", lambda: [hexs(c) for c in s.columns])


def main():
    jobs = json.load(open(sys.argv[3]))
    with open(sys.argv[4], "w") as out:
        for job in jobs:
            out.write("begin %d\n" % job["id"])
            out.flush()
            f = run_read_sas if job["kind"] == "read_sas" else run
            log = Log(job)
            try:
                f(job, log)
            except Exception as e:  # the library's doing: the comparison meets it where something else must follow
                log.add("uncaught", type(e).__name__, str(e)[:200])
                job.pop("leak", None)
            res = dict(id=job["id"], ev=log.ev)
            if job.get("leak"):
                log = None
                n, blocks, memory = job["leak"], [0] * 4, [0] * 4
                for _ in range(n):
                    f(job, Log(job))
                for k in range(4):
                    for _ in range(n if k else 0):
                        f(job, Log(job))
                    gc.collect()
                    sys._clear_type_cache()  # holds on to the attribute names looked up
                    blocks[k], memory[k] = sys.getallocatedblocks(), allocated() if allocated else 0
                res["grown"] = [[y - x for x, y in zip(v, v[1:])] for v in (blocks, memory)]
            out.write(json.dumps(res) + "\n")
        out.write("DONE\n")
        out.flush()
    # a reader that is still there when the interpreter stops
    if jobs and jobs[-1].get("leave"):
        j = jobs[-1]
        global left
        l = Log(dict(j, raise_at=None))
        try:
            left = Reader(j["file"], make_sink(dict(j, kind="chunk", chunk=3), l))
            left.read_rows(2)
        except Exception:
            pass


main()
