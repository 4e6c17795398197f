// P12-P14: hostile bytes, truncated and failing sources, what is asked of a source.
#include "mutate.hpp"
#include "observe.hpp"
#include <cppsas7bdat/source/ifstream.hpp>
#include <optional>
#include <sys/stat.h>
#include <unistd.h>

using namespace hn;
namespace cs = cppsas7bdat;
using mon::Bad;
using mon::bad;

namespace {
using ob::StopReading;
using ob::Digest;
using ob::observe;

const sg::Model *small_corpus(sg::Rng &r, size_t limit) {
  for (int k = 0; k < 30; ++k) {
    const sg::Model *m = corpus_model(r.below(corpus_files().size()));
    if (m && m->bytes.size() <= limit) return m;
  }
  return nullptr;
}

// Reads everything there is to read from whatever bytes; only the sanitizers and the bounds decide.
void devour(Ctx &c, const std::string &bytes, bool eager, bool no_sink, std::string &outcome, Bad &x) {
  mon::Feed f(bytes);
  f.eager_eof = eager;
  f.read_limit = 1000 + 4 * bytes.size() / 16; // a page has at least a page header
  mon::Watch w;
  w.sequential = false; // a row that cannot be extracted is passed over: indices only have to grow
  volatile uint64_t sink = 0;
  uint64_t rows = 0, limit = 0, row_length = 0;
  uint64_t delivered = 0, looked_at = 0;
  size_t texts = 0;
  auto eat = [&](cs::Column::PBUF p) {
    ++rows;
    if (row_length == 0) { if (rows > 100000) throw StopReading(); }
    else if (rows > limit) throw mon::Runaway{"more rows than the file can hold"};
    // a few bytes can expand to many long rows: not all of them are looked at, or read
    if ((delivered += row_length) > (4ull << 30)) { ++c.n["stopped_after_4G"]; throw StopReading(); }
    if ((texts > 20000 || looked_at > (256ull << 20)) && rows % 64) return;
    looked_at += row_length;
    auto q = static_cast<const unsigned char *>(p);
    uint64_t s = 0;
    for (uint64_t k = 0; k < row_length; ++k) s += q[k];
    for (auto &col : w.cols) {
      const auto sv = col.get_string(p);
      for (unsigned char ch : sv) s += ch;
      const double d = col.get_number(p);
      s += std::isnan(d) ? 1 : d > 0;
      s += uint64_t(col.get_integer(p));
      const auto dt = col.get_datetime(p);
      if (!dt.is_special()) s += uint64_t((dt - mon::epoch1960()).total_seconds());
      const auto da = col.get_date(p);
      if (!da.is_special()) s += uint64_t(da.day_number()) + da.year();
      const auto ti = col.get_time(p);
      if (!ti.is_special()) s += uint64_t(ti.total_seconds());
      s += col.to_string(p).size() + col.length();
      looked_at += 2 * col.length();
      ++texts;
    }
    sink = sink + s;
  };
  size_t from = 0;
  w.on_row = [&](size_t i, cs::Column::PBUF p) {
    if (i < from) w.fail(bad("row-index", "got " + std::to_string(i) + " after row " + std::to_string(from - 1)));
    from = i + 1;
    eat(p);
  };
  w.on_props = [&] {
    const auto &p = *w.props_ptr;
    row_length = p.row_length;
    limit = std::min<uint64_t>(p.row_count, bytes.size() / std::max<uint64_t>(1, std::min<uint64_t>(row_length, 12)) + 16);
  };
  try {
    mon::Source src(f);
    mon::Sink snk(w);
    cs::Reader rd(src, snk);
    ++c.n["constructed"];
    for (int tries = 0; tries < 4; ++tries) { // go on after an exception, as a tolerant caller would
      try {
        if (no_sink) { while (auto p = rd.read_row_no_sink()) eat(p); }
        else rd.read_all();
        outcome = "read";
        break;
      } catch (const std::exception &e) { outcome = e.what(); ++c.n["read_exceptions"]; }
    }
    (void)rd.skip(3);
    (void)rd.current_row_index();
  } catch (const StopReading &) { outcome = row_length ? "long rows" : "rows of no bytes"; c.n["zero_length_rows"] += !row_length; }
  catch (const mon::Runaway &e) { x = bad("runaway", e.what); }
  catch (const std::exception &e) { outcome = std::string("construction: ") + e.what(); ++c.n["construction_exceptions"]; }
  catch (...) { x = bad("foreign-exception", "not a std::exception"); }
  c.n["rows_read"] += rows;
  if (w.bad_) x = w.bad_;
  if (w.ends_before_props || w.pushes_before_props) x = bad("protocol", "callbacks before the properties");
}

Reg r12("P12", [](Ctx &c) {
  alloc_cap(48ull << 20);
  sg::Rng r(c.case_seed());
  sg::Model own;
  const sg::Model *m = r.pct(15) ? small_corpus(r, 140000) : nullptr;
  if (!m) {
    sg::Opt o = small_opt(r);
    o.max_cols = 1 + r.below(6);
    o.max_rows = r.pct(80) ? 8 : 60;
    o.small_pages = r.pct(80);
    if (r.pct(60)) o.comp = r.pct(50) ? sg::RLE : sg::RDC;
    own = sg::generate(c.case_seed(1), o);
    m = &own;
  } else ++c.n["corpus_uses"];
  { // any byte of the magic number that is wrong makes it another kind of file
    std::string b = m->bytes;
    const size_t at = r.below(32);
    b[at] ^= char(r.pct(50) ? 1u << r.below(8) : 1 + r.below(255));
    bool refused = false;
    Bad x;
    mon::Feed f(b);
    f.eager_eof = r.pct(50);
    mon::Watch w;
    try {
      mon::Source src(f);
      mon::Sink snk(w);
      cs::Reader rd(src, snk);
      rd.read_all();
    } catch (const std::exception &) { refused = true; }
    ++c.n["wrong_magic_numbers"];
    c.feature(0x3A61C + at);
    if (!refused || w.props) c.viol("magic-number", "a file with byte " + std::to_string(at) + " of the magic number changed is read [" + m->describe() + "]", &b);
  }
  const int n = m->bytes.size() > 50000 ? 4 : 20;
  for (int k = 0; k < n; ++k) {
    std::string what, outcome;
    const std::string b = mut::hostile(*m, r, what);
    c.inputs.insert(sg::fnv(b));
    ++c.n["hostile_files"];
    // keep the bytes at hand for a replay: a crash leaves no time to write them
    Bad x;
    const bool ns = r.pct(20), eager = r.pct(50);
    if (!c.dump.empty() && std::getenv("DUMP_HOSTILE")) std::ofstream(c.dump + "/P12-case" + std::to_string(c.kase) + "-" + std::to_string(k) + ".sas7bdat", std::ios::binary) << b;
    devour(c, b, eager, ns, outcome, x);
    c.feature(sg::fnv(what) ^ sg::fnv(outcome.substr(0, 24)) * 3);
    if (x) c.viol(x.tag, x.detail + " after damage: " + what + " [" + m->describe() + "]", &b);
    if (k == 0) c.sample(what + " -> " + outcome + " [" + m->describe() + "]");
  }
});

// ------------------------------------------------------------------ P13
struct Run {
  Bad x;
  bool constructed{false}, threw{false}, source_error{false};
  std::string what;
  size_t rows{0};
  uint64_t ends{0};
};
Run run(const sg::Model &m, mon::Feed &f, mon::Watch &w, int style, uint64_t seed, const std::string &path = {}) {
  Run o;
  f.read_limit = 40 + 4ull * (m.bytes.size() / m.page_length + 2);
  sg::Rng r(seed);
  try {
    std::optional<mon::Source> src;
    std::optional<cs::datasource::ifstream> file;
    mon::Sink snk(w);
    if (path.empty()) src.emplace(f); else file.emplace(path.c_str());
    cs::Reader rd = path.empty() ? cs::Reader(*src, snk) : cs::Reader(*file, snk);
    o.constructed = true;
    try {
      switch (style) {
      case 0: rd.read_all(); break;
      case 1: while (rd.read_row()) {} break;
      default: while (rd.read_rows(1 + r.below(9))) {} break;
      }
    } catch (const mon::SourceError &) { o.threw = o.source_error = true; }
    catch (const std::exception &e) { o.threw = true; o.what = e.what(); }
    if (!o.threw && w.ends != 1) o.x = bad("end_of_data-count", std::to_string(w.ends));
    o.rows = w.pushed;
    o.ends = w.ends;
    // afterwards: nothing that is not the next row may come
    try { for (int k = 0; k < 3; ++k) (void)rd.read_row(); } catch (const std::exception &) {}
    if (!o.x && rd.current_row_index() < w.pushed) o.x = bad("current_row_index", std::to_string(rd.current_row_index()));
  } catch (const mon::SourceError &) { o.source_error = o.threw = true; }
  catch (const std::exception &e) { o.threw = true; o.what = e.what(); }
  catch (const mon::Runaway &e) { o.x = bad("runaway", e.what); }
  if (w.bad_) o.x = w.bad_;
  return o;
}

Reg r13("P13", [](Ctx &c) {
  sg::Rng r(c.case_seed());
  sg::Model own;
  const sg::Model *m = nullptr;
  if (c.kase < corpus_files().size()) {
    const sg::Model *k = corpus_model(c.kase);
    if (k && k->bytes.size() < (c.thorough ? 3000000u : 700000u)) m = k;
    if (m && !m->lossy.empty()) { own = *m; own.rows = m->lossy; m = &own; }
    if (m) ++c.n["corpus_files"];
  }
  if (!m) {
    sg::Opt o = small_opt(r);
    o.max_cols = 1 + r.below(6);
    o.max_rows = r.pct(60) ? 30 : 120;
    o.small_pages = r.pct(85);
    own = sg::generate(c.case_seed(1), o);
    m = &own;
  }
  c.input(*m);
  const size_t hl = m->header_length, P = m->page_length, size = m->bytes.size();
  // a clean run tells which read asks for what
  mon::Feed clean(m->bytes);
  clean.keep_log = true;
  mon::Watch wc(*m);
  Run base = run(*m, clean, wc, 0, 0);
  if (base.x || base.threw || base.rows != m->rows.size()) { c.viol("clean-run:" + (base.x ? base.x.tag : "rows"), base.x.detail + base.what + " [" + m->describe() + "]", &m->bytes); return; }
  auto expected = [&](size_t full) { // rows on the first `full` pages
    size_t k = 0;
    while (k < m->rows.size() && m->row_page[k] < full) ++k;
    return k;
  };
  // up to where construction read
  const size_t budget = m->bytes.size() > 200000 ? 8 : 24;
  auto report = [&](const Bad &x, const std::string &how) { c.viol(x.tag, x.detail + " (" + how + ") [" + m->describe() + "]", &m->bytes); };

  // --- truncation
  std::vector<size_t> cuts;
  for (size_t k = 0; k < budget; ++k) {
    size_t at;
    switch (r.below(8)) {
    case 0: at = r.below(hl); break;
    case 1: at = hl + (size - hl) / P * P * r.below(2) + r.below(3); break;
    case 2: case 3: at = hl + r.below((size - hl) / P + 1) * P; break;
    case 4: at = hl + r.below((size - hl) / P + 1) * P + r.below(40); break;
    case 5: { size_t e = hl + r.below((size - hl) / P + 1) * P, d = 1 + r.below(40); at = e > d ? e - d : 0; break; }
    default: at = r.below(size);
    }
    cuts.push_back(std::min(at, size - 1));
  }
  for (size_t cut : cuts) {
    const std::string b = m->bytes.substr(0, cut);
    const size_t full = cut < hl ? 0 : (cut - hl) / P;
    mon::Feed f(b);
    f.eager_eof = r.pct(50);
    mon::Watch w(*m);
    w.check_cols = false;
    const bool meta_complete = cut >= hl && full >= std::max<size_t>(m->n_meta_pages ? 1 : 0, 1);
    (void)meta_complete;
    const bool as_file = r.pct(40);
    const std::string path = as_file ? (c.work.empty() ? std::string("/tmp") : c.work) + "/p13-" + std::to_string(getpid()) + ".sas7bdat" : std::string();
    if (as_file) std::ofstream(path, std::ios::binary) << b;
    Run o = run(*m, f, w, int(r.below(3)), r.next(), path);
    if (as_file) { unlink(path.c_str()); ++c.n["truncated_files"]; }
    ++c.n["truncations"];
    c.feature(1 ^ (cut < hl ? 2 : (cut - hl) % P == 0 ? 4 : 6) ^ uint64_t(o.constructed) << 4 ^ uint64_t(std::min<size_t>(o.rows, 30)) << 5 ^ uint64_t(m->comp) << 12 ^ uint64_t(std::min<size_t>(full, 15)) << 16);
    const std::string how = "cut at " + std::to_string(cut) + " of " + std::to_string(size) + ", " + std::to_string(full) + " full pages, " + (as_file ? "file" : f.eager_eof ? "eager eof" : "late eof");
    if (o.x) { report(o.x, how); continue; }
    const size_t want = expected(full);
    if (cut < hl) {
      ++c.n["cut_in_header"];
      if (o.constructed) report(bad("header-truncated", "construction succeeds"), how);
    } else if (!o.constructed) {
      ++c.n["construction_refused"];
      if (want) report(bad("rows-lost", "construction fails: " + o.what + ", " + std::to_string(want) + " rows are there"), how);
    } else {
      if (o.threw) report(bad("exception", o.what), how);
      else if (o.rows != want) report(bad(o.rows < want ? "rows-lost" : "rows-invented", "got " + std::to_string(o.rows) + " want " + std::to_string(want)), how);
      else c.n["rows_before_cut"] += o.rows;
    }
  }
  // --- a read that fails, a read that throws
  const size_t nreads = clean.log.size();
  for (size_t k = 0; k < std::min<size_t>(budget, 2 * nreads); ++k) {
    const size_t at = nreads * 2 <= budget ? k / 2 : r.below(nreads);
    const bool thr = k & 1;
    mon::Feed f(m->bytes);
    f.eager_eof = r.pct(50);
    f.partial_on_fail = r.pct(70);
    (thr ? f.throw_at : f.fail_at) = at;
    mon::Watch w(*m);
    w.check_cols = false;
    Run o = run(*m, f, w, int(r.below(3)), r.next());
    ++c.n[thr ? "throwing_reads" : "failing_reads"];
    const size_t pos = clean.log[at].first;
    const size_t full = pos < hl ? 0 : (pos - hl) / P;
    c.feature(7 ^ uint64_t(thr) << 3 ^ uint64_t(std::min<size_t>(at, 15)) << 4 ^ uint64_t(o.constructed) << 9 ^ uint64_t(std::min<size_t>(o.rows, 30)) << 10 ^ uint64_t(m->comp) << 16);
    const std::string how = std::string(thr ? "read " : "failing read ") + std::to_string(at) + (thr ? " throws" : "") + " at byte " + std::to_string(pos) + (f.eager_eof ? ", eager eof" : ", late eof");
    if (o.x) { report(o.x, how); continue; }
    const size_t want = expected(full);
    // the read may lie behind the last row: then nobody has to notice
    if (f.reads <= at) { if (o.threw || o.rows != m->rows.size()) report(bad("rows-lost", "no fault happened, " + std::to_string(o.rows) + " rows"), how); continue; }
    if (pos >= size) continue; // the read that finds the end
    if (!o.threw) report(bad("fault-swallowed", "no exception, " + std::to_string(o.rows) + " rows"), how);
    else if (thr && !o.source_error) report(bad("exception-replaced", o.what), how);
    else if (o.constructed && o.rows != want) report(bad(o.rows < want ? "rows-lost" : "rows-invented", "got " + std::to_string(o.rows) + " want " + std::to_string(want)), how);
    else if (!o.constructed && want && pos >= hl) report(bad("rows-lost", "construction fails, " + std::to_string(want) + " rows are there"), how);
  }
  c.sample(m->describe() + ": " + std::to_string(cuts.size()) + " truncations, " + std::to_string(nreads) + " reads");
});

// ------------------------------------------------------------------ P14
Reg r14("P14", [](Ctx &c) {
  alloc_cap(48ull << 20);
  sg::Rng r(c.case_seed());
  sg::Model own;
  const sg::Model *m = nullptr;
  if (c.kase < corpus_files().size()) {
    const sg::Model *k = corpus_model(c.kase);
    if (k && k->cols.size() * k->rows.size() < (c.thorough ? 2000000u : 60000u)) m = k;
    if (m && !m->lossy.empty()) { own = *m; own.rows = m->lossy; m = &own; }
    if (m) ++c.n["corpus_files"];
  }
  if (!m) {
    sg::Opt o = small_opt(r);
    o.max_cols = 1 + r.below(6);
    o.max_rows = r.pct(60) ? 30 : 200;
    o.small_pages = r.pct(80);
    own = sg::generate(c.case_seed(1), o);
    m = &own;
  }
  c.input(*m);
  const size_t hl = m->header_length, P = m->page_length, size = m->bytes.size();
  for (int eager = 0; eager < 2; ++eager) {
    mon::Feed f(m->bytes);
    f.eager_eof = eager;
    f.keep_log = true;
    f.read_limit = 40 + 4ull * (size / P + 2);
    mon::Watch w(*m);
    Bad x;
    size_t late = 0, last = ~0ull;
    auto within = [&](size_t row, const char *when) {
      const size_t allowed = hl + (size_t(m->row_page[row]) + 1) * P;
      if (f.pos > allowed && !x) x = bad(std::string("read-ahead:") + when, "row " + std::to_string(row) + " is on page " + std::to_string(m->row_page[row]) + ", " + std::to_string(f.pos) + " bytes were read, " + std::to_string(allowed) + " are needed");
    };
    w.on_row = [&](size_t i, cs::Column::PBUF) { if (i < m->rows.size()) { within(i, "row"); last = i; ++late; } };
    try {
      mon::Source src(f);
      mon::Sink snk(w);
      cs::Reader rd(src, snk);
      if (!m->rows.empty()) within(0, "construction");
      const uint64_t reads0 = f.reads;
      (void)rd.properties();
      (void)rd.current_row_index();
      if (f.reads != reads0) x = x ? x : bad("reads-for-nothing", "properties() reads");
      // a skip to a row reads no further than the page of the row before it
      if (!m->rows.empty() && r.pct(30)) {
        const size_t to = r.below(m->rows.size());
        if (to && rd.skip(to)) within(to - 1, "skip");
        w.next_row = to;
        w.sequential = true;
        rd.read_all();
        if (!x && w.pushed != m->rows.size() - to) x = bad("row-count", std::to_string(w.pushed) + " after skipping " + std::to_string(to));
      } else {
        const bool chunks = r.pct(40);
        while (true) {
          const size_t k = chunks ? 1 + r.below(7) : 1;
          if (!(chunks ? rd.read_rows(k) : rd.read_row())) break;
          c.n["lazy_rows"] += k;
          if (last < m->rows.size()) within(last, "return");
        }
        if (!x && w.pushed != m->rows.size()) x = bad("row-count", std::to_string(w.pushed));
      }
      const uint64_t reads1 = f.reads;
      for (int k = 0; k < 3; ++k) (void)rd.read_row();
      if (!x && f.reads != reads1 && (eager || f.eofbit) && f.reads_after_end > (eager ? 0u : 1u)) x = bad("reads-after-end", std::to_string(f.reads - reads1));
    } catch (const std::exception &e) { x = bad("exception", e.what()); }
    catch (const mon::Runaway &e) { x = bad("runaway", e.what); }
    if (!x) x = w.bad_;
    if (!x && f.reads_after_end > (eager ? 0u : 1u)) x = bad("reads-after-end", std::to_string(f.reads_after_end) + (eager ? " eager" : " late"));
    if (!x && f.reads > 8 + 2 * (size / P + 1)) x = bad("too-many-reads", std::to_string(f.reads));
    if (!x) {
      uint64_t asked = 0;
      for (auto &l : f.log) asked += l.second;
      if (asked > size + P) x = bad("too-many-bytes", std::to_string(asked) + " asked, the file has " + std::to_string(size));
    }
    c.n["reads_watched"] += f.log.size();
    c.feature(sg::fnv(&f.reads, 8) ^ uint64_t(eager) ^ uint64_t(m->comp) << 3 ^ late << 8);
    if (x) c.viol(x.tag, x.detail + (eager ? " (eager eof)" : " (late eof)") + " [" + m->describe() + "]", &m->bytes);
  }
  // the same bytes from every kind of source, whole or damaged
  for (int round = 0; round < 4; ++round) {
    std::string what = "whole";
    const std::string b = round == 0 ? m->bytes : mut::hostile(*m, r, what);
    if (round && b.size() > 100000) continue;
    Digest d[4];
    {
      mon::Feed f(b); f.read_limit = 1000 + b.size() / 4; f.eager_eof = true; observe(d[0], mon::Source(f), 4000);
      mon::Feed g(b); g.read_limit = 1000 + b.size() / 4; g.eager_eof = false; observe(d[1], mon::Source(g), 4000);
    }
    const std::string dir = c.work.empty() ? "/tmp" : c.work, path = dir + "/p14-" + std::to_string(getpid()) + ".sas7bdat";
    { std::ofstream o(path, std::ios::binary); o << b; }
    observe(d[2], cs::datasource::ifstream(path.c_str()), 4000);
    { cs::datasource::ifstream is(path.c_str()); observe(d[3], is, 4000); }
    unlink(path.c_str());
    static const char *names[] = {"memory, eager end", "memory, late end", "file by value", "file by reference"};
    if (d[0].starved || d[1].starved || d[2].starved || d[3].starved) { ++c.n["starved_comparisons"]; if (round == 0) c.viol("exception", "memory runs out on a whole file [" + m->describe() + "]", &b); continue; }
    for (int k = 1; k < 4; ++k)
      if (d[k].h != d[0].h) {
        size_t i = 0;
        while (i < d[0].text.size() && i < d[k].text.size() && d[0].text[i] == d[k].text[i]) ++i;
        c.viol("source-dependent", std::string(names[k]) + " differs from " + names[0] + " (" + what + "): '" + mon::esc(d[k].text.substr(i, 80)) + "' / '" + mon::esc(d[0].text.substr(i, 80)) + "' [" + m->describe() + "]", &b);
        break;
      }
    ++c.n["source_comparisons"];
    c.n["damaged_comparisons"] += round > 0;
  }
  if (c.kase % 64 == 3) { // files that are not there
    for (std::string p : {std::string("/nonexistent/x.sas7bdat"), c.work.empty() ? std::string("/tmp") : c.work}) {
      bool threw = false;
      try {
        mon::Watch w;
        cs::Reader rd(cs::datasource::ifstream(p.c_str()), mon::Sink(w));
        c.viol("missing-file", "no exception for " + p);
      } catch (const std::exception &) { threw = true; }
      c.n["missing_files"] += threw;
    }
  }
  c.sample(m->describe());
});
} // namespace
