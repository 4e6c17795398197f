"""What each check runs: program, number of cases, what has to be observed."""
import os

import bind, vlib

GEN = ("Cases: every .sas7bdat file of the repository's corpus the independent decoder supports, then files made by a "
       "generator that writes the format from the published description and knows the content of every file. ")


def harness(c, p, cases=None):
    """a property decided by the C++ harness, one or more passes"""
    for ps in p["passes"]:
        exe = vlib.build_harness(ps.get("flavour", "asan"), ps["tus"])
        n = cases or ps[c.tier]
        vlib.run_cases(c, exe, n, env=vlib.env_for(**ps.get("env", {})), args=ps.get("args", ()), lo=ps.get("lo", 0), wrap=ps.get("wrap", ()))
    d = len(c.inputs) if p.get("distinct", "inputs") == "inputs" else len(c.features)
    c.extra["distinct_inputs"], c.extra["distinct_features"] = len(c.inputs), len(c.features)
    floors = [] if cases else p["floors"]
    return c.finish(c.n.get("cases", 0), d, p["rule"], floors, p.get("assumptions", ()))


def one(tus, quick, thorough, **kw):
    return [dict(dict(tus=tus, quick=quick, thorough=thorough), **kw)]


GEN_ASSUME = ["the format is the one the generator and the independent decoder describe (cpp/sasgen.hpp, cpp/refdec.hpp); "
              "they were written from the published reverse-engineering notes and agree with each other on the corpus"]

PROPS = {}


TECH = "runtime monitor with a reference-model oracle on generated and real files, under AddressSanitizer and UBSan"
NOTE = ("Held on the executions explored: generated files of known content and the corpus, compared value by value; "
        "trusts the generator's and the independent decoder's reading of the format.")


def P(id, **kw):
    PROPS[id] = dict(dict(run=harness, assumptions=GEN_ASSUME, technique=TECH, note=NOTE), **kw)


D = ["p_decode.cpp"]
P("P01", passes=one(D, 15000, 200000), floors=[("cases", 4000), ("rows_checked", 20000), ("values_checked", 50000), ("zero_row_pages", 20), ("mix_pages", 100), ("files_over_64k_rows", 4), ("files_over_128k_rows", 2), ("files_over_64k_pages", 1)],
  rule=GEN + "Non-trivial: a distinct file (hash of its bytes); every value of every row is compared.")
P("P02", passes=one(D, 20000, 300000), floors=[("cases", 4000), ("rows_checked", 20000), ("packed_rows", 5000)] + [("rle_cmd_%d" % k, 10) for k in (0, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)] + [("rle_long_%d" % k, 10) for k in (0, 4, 5, 6, 7)],
  rule=GEN + "Non-trivial: a distinct RLE-compressed file (hash of its bytes); every value of every row is compared.")
P("P03", passes=one(D, 12000, 200000), floors=[("cases", 4000), ("rows_checked", 20000), ("packed_rows", 5000)] + [("rdc_cmd_%d" % k, 10) for k in range(18)] + [("rdc_long_%d" % k, 10) for k in (1, 2, 3)],
  rule=GEN + "Non-trivial: a distinct RDC-compressed file (hash of its bytes); every value of every row is compared.")
P("P04", passes=one(D, 60000, 600000), floors=[("cases", 4000), ("headers_checked", 4000)],
  rule=GEN + "Non-trivial: a distinct file; all header properties are compared with the model, in the sink, after construction, after reading and after a move.")
P("P05", passes=one(D, 12000, 100000), floors=[("cases", 4000), ("columns", 10000), ("text_blocks", 4000), ("files_over_32k_columns", 3), ("files_over_64k_columns", 2)],
  rule=GEN + "Non-trivial: a distinct file; name, label, format, length and type of every column are compared.")
P("P06", passes=one(D, 16000, 200000), floors=[("cases", 4000), ("numbers", 20000), ("integers", 2000), ("texts_checked", 20000)], distinct="features",
  rule=GEN + "Non-trivial: a distinct (kind, stored bytes) value class (hash of the stored bytes modulo 65536 per kind); all getters and the text are compared.")
P("P07", passes=one(D, 16000, 200000), floors=[("cases", 4000), ("dates", 5000), ("datetimes", 5000), ("times", 5000), ("missing_values", 100)], distinct="features",
  rule=GEN + "Non-trivial: a distinct (kind, stored bytes) value class; all getters and the text are compared with an independent calendar.")
P("P08", passes=one(D, 16000, 200000), floors=[("cases", 4000), ("strings", 20000)], distinct="features",
  rule=GEN + "Non-trivial: a distinct (kind, first stored bytes) value class; value and text are compared.")

H = ["p_hist.cpp"]
P("P09", passes=one(H, 12000, 300000), floors=[("cases", 10000), ("calls", 100000), ("op_skip", 5000), ("op_move", 2000), ("files_over_64k_rows", 10), ("interleaved_readers", 1000), ("corpus_uses", 200)], distinct="features",
  technique="runtime monitor: random call histories checked online against a model of the reader, under ASan and UBSan",
  rule=GEN + "Each case is a random history of 4..60 calls. Non-trivial: a distinct (call, how its argument relates to the rows left, page boundary, compression, previous call, file layout) combination.")
P("P10", passes=one(H, 20000, 300000), level="fault_enumeration", floors=[("cases", 4000), ("callbacks", 40000), ("exceptions_injected", 10000)], distinct="features",
  technique="runtime monitor: sink-protocol automaton with an exception injected at each callback, under ASan and UBSan",
  rule=GEN + "Each case is a history of up to 9 calls, run once without and then with an exception at every callback (at most 12 of them). Non-trivial: a distinct (call, position, argument, compression) combination.")
P("P11", passes=one(H, 40000, 400000), floors=[("cases", 5000), ("filters", 5000), ("columns_kept", 5000), ("columns_dropped", 5000), ("filters_keeping_nothing", 100)], distinct="features",
  technique="runtime monitor: projection of the reference model as oracle, under ASan and UBSan",
  rule=GEN + "Each case applies one filter. Non-trivial: a distinct (kind of filter, columns kept, columns, compression, lists given) combination.")

def hostile(c, p, cases=None):
    """the damaging workload, then, thorough, libFuzzer on top of it"""
    if c.tier == "thorough":
        d = os.path.join(c.work, "seeds")
        os.makedirs(d)
        for k, m in enumerate(bind.make_models(c, 1500)):
            if m.size < 14000:
                with open(m.file, "rb") as f, open(os.path.join(d, str(k)), "wb") as o:
                    o.write(bytes([k % 256]) + f.read())
                c.count("fuzz_seeds")
        vlib.run_fuzz(c, vlib.build_fuzz(), d, 2000 * cases if cases else 16000000)
    return harness(c, p, cases)


F = ["p_fault.cpp"]
P("P12", run=hostile, passes=one(F, 10000, 300000), floors=[("cases", 8000), ("wrong_magic_numbers", 8000), ("hostile_files", 100000), ("constructed", 20000), ("construction_exceptions", 5000), ("rows_read", 100000)],
  technique="AddressSanitizer, UBSan and library assertions under a structure-aware mutation workload",
  note="Held on the damaged files explored; a clean sanitizer run excludes the violations sanitizers can see in the executions made, not memory errors in general.",
  rule="Cases: a well-formed file (generated or from the corpus) with 1..8 damages to header, page and subheader fields, pages, compressed streams or arbitrary bytes; 4 or 20 damaged files per case. Non-trivial: a distinct damaged file (hash of its bytes).")
P("P13", passes=one(F, 8000, 120000), level="fault_enumeration", distinct="features", floors=[("cases", 2500), ("truncations", 20000), ("failing_reads", 3000), ("throwing_reads", 3000), ("cut_in_header", 500), ("rows_before_cut", 10000)],
  technique="runtime monitor: fault injection at reads and truncation points, prefix oracle, under ASan and UBSan",
  rule=GEN + "Each case truncates the file at up to 24 points and fails or throws at up to 24 reads. Non-trivial: a distinct (fault, position class, constructed, rows delivered, compression) combination.")
P("P14", passes=one(F, 9000, 120000), distinct="inputs", floors=[("cases", 2500), ("lazy_rows", 20000), ("reads_watched", 10000), ("source_comparisons", 8000), ("damaged_comparisons", 5000), ("missing_files", 20)],
  technique="runtime monitor: source-side trace (what is read, when) and differential comparison of sources, under ASan and UBSan",
  rule=GEN + "Each case watches the reads of two kinds of memory source row by row and compares four kinds of source on the whole file and on three damaged versions. Non-trivial: a distinct file.")

S = ["p_sink.cpp"]
P("P15", passes=one(S, 4000, 80000), distinct="features", floors=[("cases", 3000), ("fields", 200000), ("csv_rows", 50000), ("csv_files", 6000), ("csv_streams", 6000), ("partial_histories", 3000), ("unwritable_outputs", 60)],
  technique="runtime monitor: the written text is parsed against the reference model, under ASan and UBSan",
  rule=GEN + "Each case writes the data set four ways (stream or file, sink by value or by reference, whole or by a random mix of calls, with or without a column filter). Non-trivial: a distinct (column kinds, compression, rows, output) combination or value class.")
P("P16", passes=one(S, 12000, 160000), distinct="features", floors=[("cases", 3000), ("printed_rows", 30000), ("partial_histories", 1500)],
  technique="runtime monitor: the written text is compared with the text made from what a second reader reports, under ASan and UBSan",
  rule=GEN + "Each case prints the data set twice (sink by value and by reference). Non-trivial: a distinct (column kinds, compression, rows, how) combination or value class.")


def cli(c, p, cases=None):
    exe = vlib.build_cli("asan")
    for ps in p["passes"]:
        ps["env"] = {"CLI": exe}
    return harness(c, p, cases)


P("P17", run=cli, passes=one(S, 1600, 20000), distinct="features", floors=[("runs", 1200), ("runs_csv", 400), ("runs_print", 400), ("runs_null", 150), ("csv_files", 500), ("runs_with_unreadable_file", 80), ("nlines_given", 200), ("unwritable_outputs", 5), ("files_failing_midway", 30), ("usages", 400), ("large_nlines", 20)],
  technique="runtime monitor: the tool's files, output and exit status against the reference model, the tool built with ASan and UBSan",
  rule="Each case runs the tool once in a scratch directory on 1..4 generated or corpus files with awkward names, some unreadable. Non-trivial: a distinct command line.")

L = ["p_life.cpp"]
P("P18", passes=one(L, 2000, 20000, flavour="tsan"), distinct="features", floors=[("cases", 1200), ("threads", 4000), ("thread_switches", 20000), ("shared_phases", 1000)] + [("role_%d" % k, 300) for k in range(6)],
  technique="ThreadSanitizer and value monitors on concurrent readers and on shared columns",
  note="Held on the interleavings explored; ThreadSanitizer reports races between the accesses these executions made, whatever their order.",
  rule="Each case runs 2..6 threads, each with its own reader (checked reading, damaged file, shared file on disk, filter and moves, print, csv), then threads sharing columns, properties and rows of one reader; pauses are injected at reads and rows. Non-trivial: a distinct order of the threads' callbacks (hash of the sequence of thread switches).")
P("P19", passes=one(L, 5000, 80000), distinct="features", level="fault_enumeration", floors=[("cases", 4000), ("lives", 12000), ("failed_constructions", 2000), ("long_files", 150), ("rows_watched", 200000), ("file_lives", 2000), ("unused_readers", 800), ("rows_skipped", 200000)],
  technique="runtime monitor: allocation accounting and instance counting, with faults in source, sink and filter, under ASan and UBSan",
  rule=GEN + "Each case lives through up to four readers (by value or reference, moved, assigned over, failing at source, sink or filter); one case in 25 has thousands of rows. Non-trivial: a distinct (faults met, way of reading, whole or not, compression, history) combination.")
MEMCHECK = ["valgrind", "--quiet", "--error-exitcode=99", "--exit-on-first-error=yes", "--num-callers=16", "--leak-check=no", "--tool=memcheck", "--soname-synonyms=somalloc=nouserintercepts"]
LIGHT = {"P22_LIGHT": "1", "TZ": "America/New_York", "LC_ALL": "C.UTF-8", "MALLOC_PERTURB_": "165"}
P("P22", passes=one(L, 1500, 20000) + one(L, 1500, 20000, flavour="plain", env=LIGHT) + one(L, 96, 2400, flavour="plain", lo=168, env=LIGHT, wrap=MEMCHECK), distinct="inputs", floors=[("cases", 1200), ("readings", 20000), ("memory_patterns", 10000), ("locales", 2500), ("damaged_files", 2000), ("digests_compared", 2000), ("process_states", 8000), ("time_zones", 2500)],
  technique="differential monitor: repeated readings under different memory contents, histories, locales and processes, under ASan and UBSan; valgrind memcheck",
  rule=GEN + "Each file and two damaged versions are read eight times in one process and once more in other processes. Non-trivial: a distinct file.")

P("P20", run=bind.python_check, distinct="features", floors=[("jobs", 3000), ("damaged_jobs", 400), ("callbacks", 20000), ("values", 300000), ("chunks", 3000), ("frames", 900), ("exceptions_injected", 150), ("reference_counts", 2000), ("leak_measurements", 40), ("filters_of_other_types", 24), ("op_again", 150), ("op_flush", 60), ("files_over_255_columns", 1), ("files_over_64k_rows", 1)],
  technique="runtime monitor: recorded event logs of the Python sinks and callers checked against the reference model, the module under ASan and UBSan",
  rule="Cases: generated and corpus files read through the Python module by random call histories with row, chunk, whole-data and the package's own sinks; a quarter of the files is damaged. Non-trivial: a distinct (sink, chunk size class, filters, first calls, column kinds, exception) combination.")

P("P21", run=bind.r_check, distinct="features", floors=[("jobs", 500), ("damaged_jobs", 100), ("callbacks", 4000), ("values", 70000), ("chunks", 500), ("frames", 150), ("exceptions_injected", 20), ("leak_measurements", 16), ("files_over_255_columns", 1), ("files_over_64k_rows", 1)],
  technique="runtime monitor: recorded event logs of the R sinks and callers checked against the reference model, the module under ASan and UBSan, R under gctorture",
  rule="Cases: generated and corpus files read through the R package by random call histories with row, chunk, whole-data and the package's own sinks; a quarter of the files is damaged. Non-trivial: a distinct (sink, chunk size class, filters, first calls, column kinds, exception) combination.")
