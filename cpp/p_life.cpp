// P18: concurrency.  P19: lifetimes, leaks, bounded memory.  P22: the result depends on the file alone.
#include "mutate.hpp"
#include "observe.hpp"
#include <atomic>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/print.hpp>
#include <cppsas7bdat/source/ifstream.hpp>
#include <fcntl.h>
#include <locale>
#include <mutex>
#include <fstream>
#include <optional>
#include <sstream>
#include <sched.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using namespace hn;
namespace cs = cppsas7bdat;
using mon::Bad;
using mon::bad;
using ob::Digest;
using ob::observe;

namespace {
const sg::Model *some_model(Ctx &c, sg::Rng &r, sg::Model &own, uint64_t salt, sg::Opt o, unsigned corpus_pct, size_t limit) {
  if (r.pct(corpus_pct))
    for (int k = 0; k < 20; ++k) {
      const sg::Model *m = corpus_model(r.below(corpus_files().size()));
      if (!m || m->bytes.size() > limit || m->cols.size() * m->rows.size() > limit / 8) continue;
      ++c.n["corpus_uses"];
      if (m->lossy.empty()) return m;
      own = *m;
      own.rows = m->lossy;
      return &own;
    }
  own = sg::generate(c.case_seed(salt), o);
  return &own;
}

// ------------------------------------------------------------------ P18
// The order in which the threads' callbacks came: relaxed, so that it orders nothing for the race detector.
struct Order {
  std::atomic<uint64_t> hash{0}, events{0}, switches{0};
  std::atomic<int> last{-1};
  void reset() { hash = 0; events = 0; switches = 0; last = -1; }
  void hit(int who) {
    events.fetch_add(1, std::memory_order_relaxed);
    if (last.exchange(who, std::memory_order_relaxed) != who) {
      switches.fetch_add(1, std::memory_order_relaxed);
      uint64_t h = hash.load(std::memory_order_relaxed);
      hash.store(sg::Rng::mix(h * 31 + uint64_t(who) + 1), std::memory_order_relaxed);
    }
  }
} order;
// a pause now and then, so that threads interleave inside the library too
struct Jitter {
  int who;
  sg::Rng r;
  unsigned level;
  void operator()() {
    order.hit(who);
    const auto k = r.below(64);
    if (k < level) sched_yield();
    else if (k == 63 && level) usleep(unsigned(r.below(60)));
  }
};
struct Job {
  int role{0};
  sg::Model own;
  const sg::Model *m{nullptr};
  std::string damaged, path;
  uint64_t seed{0};
  bool eager{false};
  unsigned jitter{0};
  // result
  Bad x;
  Digest d;
  std::string text;
  mon::Seen seen;
};
void work(Job &j, int who) {
  mon::seen() = {};
  Jitter jit{who, sg::Rng(j.seed), j.jitter};
  sg::Rng r(j.seed + 1);
  try {
    switch (j.role) {
    case 0: { // everything, checked value by value
      mon::Feed f(j.m->bytes);
      f.eager_eof = j.eager;
      f.on_read = [&] { jit(); };
      mon::Watch w(*j.m, mon::VALUES | mon::TEXT);
      w.on_row = [&](size_t, cs::Column::PBUF) { jit(); };
      j.x = mon::read_all(*j.m, f, w).b;
      break;
    }
    case 1: { // damaged bytes
      mon::Feed f(j.damaged);
      f.read_limit = 1000 + j.damaged.size() / 4;
      f.on_read = [&] { jit(); };
      observe(j.d, mon::Source(f), 4000);
      break;
    }
    case 2: observe(j.d, cs::datasource::ifstream(j.path.c_str()), 4000); break;
    case 3: { // a filter, moves, a mix of calls
      mon::Feed f(j.m->bytes);
      f.eager_eof = j.eager;
      f.on_read = [&] { jit(); };
      cs::ColumnFilter::Exclude ex;
      mon::Watch w(*j.m, mon::VALUES);
      w.idx.clear();
      for (auto &col : j.m->cols) if (r.pct(40)) ex.excluded.insert(col.name);
      for (size_t k = 0; k < j.m->cols.size(); ++k) if (!ex.excluded.count(j.m->cols[k].name)) w.idx.push_back(k);
      w.on_row = [&](size_t, cs::Column::PBUF) { jit(); };
      cs::Reader rd(mon::Source(f), mon::Sink(w), ex);
      while (rd.read_rows(1 + r.below(5))) { if (r.pct(30)) { cs::Reader t(std::move(rd)); rd = std::move(t); } }
      if (w.bad_) j.x = w.bad_;
      else if (w.pushed != j.m->rows.size()) j.x = bad("row-count", std::to_string(w.pushed));
      break;
    }
    default: {
      std::ostringstream os;
      mon::Feed f(j.m->bytes);
      f.eager_eof = j.eager;
      f.on_read = [&] { jit(); };
      if (j.role == 4) { cs::Reader rd{mon::Source(f), cs::datasink::print(os)}; rd.read_all(); }
      else { cs::Reader rd{mon::Source(f), cs::datasink::csv(os)}; rd.read_all(); }
      j.text = os.str();
    }
    }
  } catch (const std::exception &e) { j.x = bad("exception", e.what()); }
  catch (const mon::Runaway &e) { j.x = bad("runaway", e.what); }
  j.seen = mon::seen();
}
template <class F> void in_threads(int n, F f) {
  std::atomic<int> ready{0};
  std::vector<std::thread> t;
  for (int k = 0; k < n; ++k)
    t.emplace_back([&, k] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) sched_yield();
      f(k);
    });
  for (auto &x : t) x.join();
}

Reg r18("P18", [](Ctx &c) {
  sg::Rng r(c.case_seed());
  const int T = int(2 + r.below(5));
  std::vector<Job> jobs(static_cast<size_t>(T));
  sg::Model common_own;
  sg::Opt o0 = small_opt(r);
  const sg::Model *common = some_model(c, r, common_own, 99, o0, 10, 60000);
  const std::string dir = c.work.empty() ? "/tmp" : c.work, path = dir + "/p18-" + std::to_string(getpid()) + ".sas7bdat";
  { std::ofstream f(path, std::ios::binary); f << common->bytes; }
  for (int k = 0; k < T; ++k) {
    Job &j = jobs[size_t(k)];
    j.role = int(r.below(6));
    if (c.kase < 8) j.role = k == 0 ? 0 : k == 1 ? int(c.kase % 6) : j.role;
    j.seed = c.case_seed(200 + uint64_t(k));
    j.eager = r.pct(50);
    j.jitter = r.pct(30) ? 0 : unsigned(r.below(24));
    if (r.pct(30)) j.m = common;
    else j.m = some_model(c, r, j.own, 10 + uint64_t(k), small_opt(r), 5, 60000);
    if (j.role == 1) { std::string what; j.damaged = mut::hostile(*j.m, r, what); if (j.damaged.size() > 100000) j.role = 0; }
    if (j.role == 2) j.path = path;
    c.input(*j.m);
    ++c.n["role_" + std::to_string(j.role)];
  }
  order.reset();
  in_threads(T, [&](int k) { work(jobs[size_t(k)], k); });
  c.n["events"] += order.events;
  c.n["thread_switches"] += order.switches;
  c.feature(order.hash.load());
  c.n["threads"] += uint64_t(T);
  for (int k = 0; k < T; ++k) {
    Job &j = jobs[size_t(k)];
    mon::seen_add(j.seen);
    if (!j.x && j.role != 0 && j.role != 3) { // the same alone
      Job solo;
      solo.role = j.role; solo.m = j.m; solo.damaged = j.damaged; solo.path = j.path; solo.seed = j.seed; solo.eager = j.eager;
      const auto keep = mon::seen();
      work(solo, 0);
      mon::seen() = keep;
      if (!j.d.starved && !solo.d.starved && (solo.d.h != j.d.h || solo.text != j.text)) j.x = bad("differs-from-alone", "role " + std::to_string(j.role));
    }
    if (j.x) { c.viol(j.x.tag, j.x.detail + " thread " + std::to_string(k) + " of " + std::to_string(T) + " role " + std::to_string(j.role) + " [" + j.m->describe() + "]", &j.m->bytes); break; }
  }
  // shared columns, properties and rows
  {
    mon::Feed f(common->bytes);
    mon::Watch w(*common);
    std::vector<std::string> rows;
    std::optional<cs::Reader> rd;
    Bad x;
    try {
      rd.emplace(mon::Source(f), mon::Sink(w));
      while (auto p = rd->read_row_no_sink()) { rows.emplace_back(reinterpret_cast<const char *>(p), common->row_length); if (rows.size() >= 40) break; }
      const cs::COLUMNS shared(rd->properties().columns);
      const bool gone = r.pct(50);
      if (gone) rd.reset();
      const cs::Properties *props = gone ? nullptr : &rd->properties();
      std::vector<Bad> bads(static_cast<size_t>(T));
      std::vector<mon::Seen> sn(static_cast<size_t>(T));
      const auto idx = mon::all_idx(*common);
      order.reset();
      in_threads(T, [&](int k) {
        mon::seen() = {};
        sg::Rng q(c.case_seed(400 + uint64_t(k)));
        Bad b;
        for (int n = 0; n < 25 && !b && !rows.empty(); ++n) {
          order.hit(k);
          const size_t row = q.below(rows.size());
          if (q.pct(20)) { const cs::COLUMNS copy(shared); b = mon::check_row(*common, copy, idx, row, rows[row].data(), mon::VALUES | mon::TEXT | mon::CROSS); }
          else b = mon::check_row(*common, shared, idx, row, rows[row].data(), mon::VALUES | mon::TEXT | mon::CROSS);
          if (!b && props && q.pct(30)) b = mon::check_columns(*common, props->columns, idx);
          if (!b && q.pct(10)) { const cs::Columns by(shared); if (by.strings.size() + by.numbers.size() + by.integers.size() + by.dates.size() + by.datetimes.size() + by.times.size() > shared.size()) b = bad("columns-by-type", ""); }
        }
        // one thread goes on reading with the reader whose columns and properties the others look at
        if (k == 0 && !gone && !b) while (rd->read_row()) order.hit(k);
        bads[size_t(k)] = b;
        sn[size_t(k)] = mon::seen();
      });
      for (auto &s : sn) mon::seen_add(s);
      for (auto &b : bads) if (b && !x) x = b;
      if (!x) x = w.bad_.tag == "row-index" ? Bad{} : w.bad_;
      c.n["shared_phases"] += !rows.empty();
      c.n["thread_switches"] += order.switches;
      c.n["events"] += order.events;
    } catch (const std::exception &e) { x = bad("exception", e.what()); }
    if (x) c.viol("shared:" + x.tag, x.detail + " [" + common->describe() + "]", &common->bytes);
  }
  unlink(path.c_str());
  c.sample(std::to_string(T) + " threads, " + std::to_string(order.switches.load()) + " switches, common " + common->describe());
});

// ------------------------------------------------------------------ P19
struct FilterError {};
struct SinkError {};
struct Unused {};
struct Filter {
  struct State { int live{0}, destroyed{0}, copies{0}; int throw_at{-1}, calls{0}; unsigned keep{100}; uint64_t salt{0}; };
  State *s;
  explicit Filter(State &x) : s(&x) { ++s->live; }
  Filter(Filter &&o) noexcept : s(o.s) { o.s = nullptr; }
  Filter(const Filter &o) : s(o.s) { if (s) { ++s->live; ++s->copies; } }
  ~Filter() { if (s) { --s->live; ++s->destroyed; } }
  bool accept(const cs::Column &col) const {
    if (s->calls++ == s->throw_at) throw FilterError();
    return sg::fnv(col.name, s->salt) % 100 < s->keep;
  }
};
struct Life {
  Bad x;
  std::string what;
  uint64_t rows{0}, skipped{0}, max_growth{0}, bound{0};
  int path{0};
};
// One life of one reader: constructed, used, moved, destroyed, or failing somewhere.
Life life(const sg::Model &m, const std::string &bytes, bool whole, uint64_t seed, int force_style = -1) {
  Life o;
  sg::Rng r(seed);
  mon::Feed f(bytes), f2(m.bytes);
  f.eager_eof = r.pct(50);
  f.read_limit = 1000 + 4 * bytes.size() / 16;
  const bool ref_src = r.pct(30), ref_snk = r.pct(30), ref_flt = r.pct(30);
  const int fault = int(r.below(10)); // 0 source throws, 1 source fails, 2 sink throws in set_properties, 3 sink throws later, 4 filter throws
  if (fault == 0) f.throw_at = r.below(6);
  if (fault == 1) f.fail_at = r.below(6);
  Filter::State fs;
  fs.salt = r.next();
  if (r.pct(40)) fs.keep = unsigned(r.below(101));
  if (fault == 4) fs.throw_at = int(r.below(std::max<size_t>(1, m.cols.size())));
  mon::Watch w;
  w.sequential = false;
  w.row_limit = 100000;
  int when = int(r.below(20));
  w.on_props = [&] { if (fault == 2) throw SinkError(); };
  uint64_t base = 0, n = 0;
  w.on_row = [&](size_t, cs::Column::PBUF) {
    ++n;
    const uint64_t now = alloc_stats().live_bytes;
    if (now > base) o.max_growth = std::max(o.max_growth, now - base);
    if (fault == 3 && when-- == 0) throw SinkError();
  };
  o.bound = 4 * (uint64_t(m.page_length) + m.row_length) + 24576;
  auto expect = [&](bool cond, const char *tag, const std::string &d) { if (!cond && !o.x) o.x = bad(tag, d); };
  auto counts = [&](int src, int snk, int flt, const char *when_) {
    expect(f.live == src, "source-lifetime", std::to_string(f.live) + " alive instead of " + std::to_string(src) + " " + when_);
    expect(w.live == snk, "sink-lifetime", std::to_string(w.live) + " alive instead of " + std::to_string(snk) + " " + when_);
        expect(fs.live <= 1 && (!ref_flt || fs.live == flt), "filter-lifetime", std::to_string(fs.live) + " alive " + when_);
  };
  cs::COLUMNS kept;
  std::string kept_row;
  bool have_row = false;
  {
    std::optional<mon::Source> rs;
    std::optional<mon::Sink> rk;
    std::optional<Filter> rf;
    if (ref_src) rs.emplace(f);
    if (ref_snk) rk.emplace(w);
    if (ref_flt) rf.emplace(fs);
    std::optional<cs::Reader> rd;
    bool constructed = false;
    try {
      auto with_filter = [&](auto &&src, auto &&snk) {
        if (ref_flt) rd.emplace(std::forward<decltype(src)>(src), std::forward<decltype(snk)>(snk), *rf);
        else rd.emplace(std::forward<decltype(src)>(src), std::forward<decltype(snk)>(snk), Filter(fs));
      };
      if (ref_src && ref_snk) with_filter(*rs, *rk);
      else if (ref_src) with_filter(*rs, mon::Sink(w));
      else if (ref_snk) with_filter(mon::Source(f), *rk);
      else with_filter(mon::Source(f), mon::Sink(w));
      constructed = true;
    } catch (const FilterError &) { o.what += "F"; }
    catch (const SinkError &) { o.what += "S"; }
    catch (const std::exception &) { o.what += "E"; }
    if (!constructed) {
      o.path = 1;
      counts(ref_src, ref_snk, 1, "after construction failed");
      if (!ref_flt) expect(fs.live == 0, "filter-lifetime", "alive after construction failed");
      if (whole && fault > 4) o.x = o.x ? o.x : bad("exception", "construction fails without a fault");
    } else {
      counts(1, 1, 1, "after construction");
      // properties and columns, kept beyond the reader
      kept = cs::COLUMNS(rd->properties().columns);
      const int style = force_style >= 0 ? force_style : int(r.below(8));
      try {
        base = alloc_stats().live_bytes;
        if (style == 5) throw Unused(); // a reader nobody reads from
        auto one = rd->read_row_no_sink();
        if (one && whole) { kept_row.assign(reinterpret_cast<const char *>(one), m.row_length); have_row = true; }
        base = alloc_stats().live_bytes;
        switch (style) {
        case 6: // rows passed over
          for (size_t k = 0; k < 40 && rd->skip(m.rows.size() / 40 + 1); ++k) {
            const uint64_t now = alloc_stats().live_bytes;
            if (now > base) o.max_growth = std::max(o.max_growth, now - base);
            o.skipped += m.rows.size() / 40 + 1;
          }
          break;
        case 7:
          while (rd->read_row_no_sink()) ++n;
          if (const uint64_t now = alloc_stats().live_bytes; now > base) o.max_growth = std::max(o.max_growth, now - base);
          break;
        case 0: rd->read_all(); break;
        case 1: while (rd->read_row()) {} break;
        case 2: for (int k = 0; k < 5; ++k) rd->read_rows(r.below(20)); break;
        case 3: rd->skip(r.below(30)); rd->read_rows(5); break;
        default: break;
        }
      } catch (const SinkError &) { o.what += "s"; }
      catch (const Unused &) { o.what += "-"; }
      catch (const std::exception &) { o.what += "e"; }
      counts(1, 1, 1, "after reading");
      o.path = 2 + style;
      if (r.pct(40)) {
        cs::Reader other(std::move(*rd));
        counts(1, 1, 1, "after a move");
        rd.reset();
        counts(1, 1, 1, "after the source of a move is gone");
        try { (void)other.read_rows(3); } catch (const SinkError &) {} catch (const std::exception &) {}
        if (r.pct(50)) { // assigning over a reader ends what it had
          mon::Watch w2;
          try {
            cs::Reader third{mon::Source(f2), mon::Sink(w2)};
            other = std::move(third);
            counts(ref_src, ref_snk, 1, "after another reader was assigned");
            expect(f2.live == 1 && w2.live == 1, "assigned-lifetime", "the assigned reader lost its source or sink");
            try { (void)other.read_row(); } catch (const std::exception &) {}
            other = cs::Reader();
            expect(f2.live == 0 && w2.live == 0, "assigned-lifetime", "alive after an empty reader was assigned");
          } catch (const std::exception &e) { expect(false, "exception", e.what()); }
        }
      } else rd.reset();
      counts(ref_src, ref_snk, 1, "after the reader is gone");
      if (!ref_flt) expect(fs.live == 0, "filter-lifetime", "alive after the reader is gone");
    }
    if (ref_src) expect(f.destroyed == 0, "source-destroyed", "one passed by reference");
    if (ref_snk) expect(w.destroyed == 0, "sink-destroyed", "one passed by reference");
  }
  counts(0, 0, 0, "at the end");
  expect(!f.copies && !w.copies && !fs.copies, "copied", std::to_string(f.copies) + " copies of the source, " + std::to_string(w.copies) + " of the sink, " + std::to_string(fs.copies) + " of the filter");
  expect(f.destroyed == 1 && w.destroyed == 1 && fs.destroyed == 1, "destroyed-once", std::to_string(f.destroyed) + " " + std::to_string(w.destroyed) + " " + std::to_string(fs.destroyed));
  // what outlives the reader still works
  if (whole && o.path > 1) {
    std::vector<size_t> idx;
    for (size_t k = 0; k < m.cols.size(); ++k) if (sg::fnv(m.cols[k].name, fs.salt) % 100 < fs.keep) idx.push_back(k);
    Bad b = mon::check_columns(m, kept, idx);
    if (!b && have_row) b = mon::check_row(m, kept, idx, 0, kept_row.data(), mon::VALUES | mon::TEXT);
    if (b) { b.tag = "kept:" + b.tag; if (!o.x) o.x = b; }
  }
  if (!o.x && o.max_growth > o.bound) o.x = bad("memory-grows", std::to_string(o.max_growth) + " bytes more than after construction, allowed " + std::to_string(o.bound) + ", rows " + std::to_string(n));
  if (w.bad_ && !o.x) o.x = w.bad_;
  o.rows = n;
  return o;
}

Reg r19("P19", [](Ctx &c) {
  alloc_cap(48ull << 20);
  sg::Rng r(c.case_seed());
  sg::Model own;
  sg::Opt o = small_opt(r);
  const bool many = c.kase % 25 == 3;
  if (many) { o.max_cols = 3; o.fixed_rows = int(4000 + r.below(8000)); o.small_pages = r.pct(70); if (!o.small_pages && r.pct(50)) o.min_page = r.range(20000, 120000); o.max_strlen = 12; if (c.kase % 50 == 3) o.comp = int(r.below(3)); }
  const sg::Model *m = some_model(c, r, own, 1, o, many ? 0 : 5, 300000);
  c.input(*m);
  c.n["long_files"] += many;
  std::string bytes = m->bytes, what = "whole";
  const bool whole = many || r.pct(70);
  if (!whole) { if (r.pct(50)) bytes = mut::hostile(*m, r, what); else { bytes.resize(r.below(bytes.size())); what = "cut"; } }
  static const int styles[] = {-1, 5, 6, 7};
  for (int round = 0; round < 4; ++round) {
    const uint64_t seed = c.case_seed(50 + uint64_t(round));
    Life l;
    bool leak = true;
    int64_t diff = 0;
    for (int again = 0; again < 3 && leak; ++again) { // what is kept for good is allocated once
      const auto a = alloc_stats();
      {
        Life k = life(*m, bytes, whole, seed, many ? styles[round] : -1);
        if (again == 0) l = k;
      }
      // what the monitors keep
      const auto b = alloc_stats();
      const int64_t kept = again == 0 ? int64_t(l.what.capacity() > 15) + int64_t(l.x.tag.capacity() > 15) + int64_t(l.x.detail.capacity() > 15) : 0;
      diff = int64_t(b.live_blocks) - int64_t(a.live_blocks) - kept;
      leak = diff > 0;
      ++c.n["lives"];
    }
    c.n["rows_watched"] += l.rows;
    c.n["rows_skipped"] += l.skipped;
    c.n["unused_readers"] += l.path == 7;
    c.n["failed_constructions"] += l.path == 1;
    c.n["max_growth_over_16k"] += l.max_growth > 16384;
    c.feature(sg::fnv(l.what) ^ uint64_t(l.path) ^ uint64_t(whole) << 5 ^ uint64_t(m->comp) << 6 ^ (seed % 1024) << 12);
    if (leak && !l.x) l.x = bad("leak", std::to_string(diff) + " blocks remain each time");
    if (l.x) { c.viol(l.x.tag, l.x.detail + " (" + what + ", " + l.what + " path " + std::to_string(l.path) + ") [" + m->describe() + "]", &bytes); break; }
    if (round == 0 && c.kase % 5 == 0) { // the same from the disk: what is open is closed again
      const std::string path = (c.work.empty() ? "/tmp" : c.work) + "/p19-" + std::to_string(getpid());
      std::ofstream(path, std::ios::binary) << bytes;
      const std::string csv = path + ".csv";
      auto open_files = [] { int n = 0; for (int k = 0; k < 256; ++k) n += fcntl(k, F_GETFD) >= 0; return n; };
      int files = open_files(), grown = 0;
      bool blocks_stay = true;
      const size_t n = r.below(m->rows.size() + 2);
      const bool to_csv = r.pct(50), gone = r.pct(10);
      if (gone) unlink(path.c_str());
      for (int again = 0; again < 3; ++again) {
        const auto a = alloc_stats();
        try {
          if (to_csv) { cs::Reader rd(cs::datasource::ifstream(path.c_str()), cs::datasink::csv(csv.c_str())); rd.read_rows(n); }
          else { std::ostringstream os; cs::Reader rd(cs::datasource::ifstream(path.c_str()), cs::datasink::print(os)); rd.read_rows(n); cs::Reader two(std::move(rd)); two.skip(3); }
        } catch (const std::exception &) {}
        blocks_stay = blocks_stay && alloc_stats().live_blocks > a.live_blocks;
        grown = open_files() - files;
        ++c.n["file_lives"];
      }
      unlink(path.c_str());
      unlink(csv.c_str());
      if (grown >= 3) { c.viol("open-files", std::to_string(grown) + " files more are open afterwards (" + what + ") [" + m->describe() + "]", &bytes); break; }
      if (blocks_stay) { c.viol("leak", "blocks remain each time a file is read (" + what + ") [" + m->describe() + "]", &bytes); break; }
    }
    if (round == 0) c.sample(what + " path " + std::to_string(l.path) + " growth " + std::to_string(l.max_growth) + " rows " + std::to_string(l.rows) + " [" + m->describe() + "]");
  }
});

// ------------------------------------------------------------------ P22
struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '\''; }
  std::string do_grouping() const override { return "\1"; }
  std::string do_truename() const override { return "ja"; }
};
struct Ctype : std::ctype<char> { // an unfriendly classification: nothing is what it is in the "C" locale
  static const mask *table() {
    static const std::vector<mask> t = [] { std::vector<mask> v(classic_table(), classic_table() + table_size); v['_'] = space; v['E'] = space; v['A'] = space; v[' '] = alpha; return v; }();
    return t.data();
  }
  Ctype() : std::ctype<char>(table()) {}
};
__attribute__((noinline)) void dirty_stack(int byte) {
  volatile unsigned char junk[65536];
  for (auto &j : junk) j = static_cast<unsigned char>(byte);
}
// What a process has one of, and a library that only reads has no business changing.
struct Process {
  std::locale cpp;
  std::string c, cwd, env, tz;
  int rounding, fds{0};
  mode_t mask;
  std::vector<void (*)(int)> handlers;
  Process() {
    if (const char *p = std::setlocale(LC_ALL, nullptr)) c = p;
    char b[4096];
    if (getcwd(b, sizeof b)) cwd = b;
    for (char **e = environ; e && *e; ++e) env += std::string(*e) + '\n';
    rounding = std::fegetround();
    mask = umask(0);
    umask(mask);
    for (int s : {SIGINT, SIGTERM, SIGPIPE, SIGABRT, SIGFPE, SIGALRM, SIGCHLD}) {
      struct sigaction a {};
      sigaction(s, nullptr, &a);
      handlers.push_back(a.sa_handler);
    }
    for (int k = 0; k < 256; ++k) fds += fcntl(k, F_GETFD) >= 0;
  }
  std::string differs(const Process &o) const {
    return !(cpp == o.cpp) ? "the global C++ locale" : c != o.c ? "the C locale" : cwd != o.cwd ? "the working directory" : env != o.env ? "the environment"
         : rounding != o.rounding ? "the rounding mode" : mask != o.mask ? "the file mode mask" : handlers != o.handlers ? "a signal handler" : "";
  }
};
Digest everything(const std::string &b, int how) {
  Digest d;
  mon::Feed f(b);
  f.read_limit = 1000 + b.size() / 4;
  f.eager_eof = true;
  observe(d, mon::Source(f), 3000, true);
  for (int k = 0; k < 2; ++k) { // and as text; the dates of the print sink follow the locale
    if (k == 0 && how == 5) continue;
    mon::Feed g(b);
    g.read_limit = 1000 + b.size() / 4;
    g.eager_eof = true;
    std::ostringstream os;
    os.imbue(std::locale::classic());
    try {
      size_t n = 0;
      auto go = [&](cs::Reader &rd) { while (n++ < 3000 && rd.read_row()) {} };
      if (k) { cs::Reader rd{mon::Source(g), cs::datasink::csv(os)}; go(rd); }
      else { cs::Reader rd{mon::Source(g), cs::datasink::print(os)}; go(rd); }
    } catch (const std::bad_alloc &) { d.starved = true; }
    catch (const std::length_error &) { d.starved = true; }
    catch (const std::exception &e) { os << e.what(); }
    catch (const mon::Runaway &) { os << "runaway"; }
    if (k) d.add(os.str());
    else d.printed = sg::fnv(os.str());
  }
  return d;
}
Reg r22("P22", [](Ctx &c) {
  alloc_cap(48ull << 20);
  sg::Rng r(c.case_seed());
  sg::Model own;
  sg::Opt o = small_opt(r);
  o.max_rows = 30;
  const sg::Model *m = nullptr;
  if (c.kase < corpus_files().size()) { m = corpus_model(c.kase); if (m && (m->bytes.size() > (c.thorough ? 4000000u : 300000u) || m->cols.size() * m->rows.size() > 40000)) m = nullptr; if (m) ++c.n["corpus_files"]; }
  if (!m) m = some_model(c, r, own, 1, o, 3, 100000);
  c.input(*m);
  const bool light = std::getenv("P22_LIGHT") != nullptr; // under another instrument: one reading, no comparison
  for (int round = 0; round < 3; ++round) {
    std::string what;
    sg::Rng damage(c.case_seed(500 + uint64_t(round))); // the same in every process
    const std::string b = round == 0 ? m->bytes : mut::hostile(*m, damage, what);
    if (round && b.size() > 150000) continue;
    c.n["damaged_files"] += round > 0;
    dirty_stack(0);
    const Process before;
    const Digest first = everything(b, 0);
    auto alone = [&](const Process &was, const std::string &how) {
      ++c.n["process_states"];
      const Process now;
      std::string d = now.differs(was);
      if (d.empty() && now.fds > was.fds) { // each time?
        (void)everything(b, 0);
        (void)everything(b, 0);
        if (Process().fds >= now.fds + 2) d = "the number of open files";
      }
      if (!d.empty()) c.viol("process-state", "reading changed " + d + how + " [" + m->describe() + "]", &b);
    };
    alone(before, "");
    ++c.n["readings"];
    {
      char t[64];
      std::snprintf(t, sizeof t, "G %llu-%d %llx", static_cast<unsigned long long>(c.kase), round, static_cast<unsigned long long>(first.h ^ first.printed * 7 ^ uint64_t(first.starved)));
      std::printf("%s\n", t);
    }
    c.feature(first.h);
    if (light) continue;
    static const int fills[] = {0x00, 0xFF, 0xA5, 0x20, 0x5A};
    for (int k = 0; k < 8; ++k) {
      std::string how;
      Digest d;
      if (k < 4) { // other contents of fresh memory and of the stack
        const int byte = r.pct(70) ? fills[r.below(5)] : int(r.below(256));
        how = "fresh memory filled with " + std::to_string(byte);
        dirty_stack(byte);
        alloc_fill(byte);
        d = everything(b, k);
        alloc_fill(-1);
        ++c.n["memory_patterns"];
      } else if (k == 4) {
        how = "after another file";
        sg::Rng q(c.case_seed(77));
        sg::Opt oo = small_opt(q);
        oo.max_rows = 10;
        const sg::Model other = sg::generate(c.case_seed(78), oo);
        (void)everything(other.bytes, k);
        std::string w2;
        (void)everything(mut::hostile(other, q, w2), k);
        d = everything(b, k);
        ++c.n["after_other_files"];
      } else if (k == 5) {
        how = "another locale";
        const std::locale old = std::locale::global(std::locale(std::locale(std::locale::classic(), new Punct), new Ctype));
        const Process other;
        try { d = everything(b, k); } catch (...) { std::locale::global(old); throw; }
        alone(other, " (another locale)");
        std::locale::global(old);
        ++c.n["locales"];
      } else if (k == 6) { // another time zone
        static const char *const zones[] = {"UTC-14", "UTC12", "UTC-7", "<+0545>-5:45", "EST5EDT", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3", "UTC1:30"};
        const char *zone = zones[r.below(8)];
        how = std::string("another time zone, ") + zone;
        const char *old = std::getenv("TZ");
        const std::string was = old ? old : "";
        setenv("TZ", zone, 1);
        tzset();
        d = everything(b, k);
        if (old) setenv("TZ", was.c_str(), 1); else unsetenv("TZ");
        tzset();
        ++c.n["time_zones"];
      } else { // while another reader is in the middle of the same bytes
        how = "beside another reader";
        mon::Feed f(m->bytes);
        mon::Watch w;
        cs::Reader rd{mon::Source(f), mon::Sink(w)};
        rd.read_row();
        d = everything(b, k);
        rd.read_all();
        ++c.n["beside_readers"];
      }
      ++c.n["readings"];
      if (d.h != first.h || (k != 5 && d.printed != first.printed) || d.starved != first.starved) {
        size_t i = 0;
        while (i < d.text.size() && i < first.text.size() && d.text[i] == first.text[i]) ++i;
        if (!round) what = "whole";
        c.viol(std::string(round ? "damaged:" : "") + (k < 4 ? "memory" : k == 4 ? "history" : k == 5 ? "locale" : k == 6 ? "time-zone" : "reader"), how + " (" + what + "): '" + mon::esc(d.text.substr(i > 10 ? i - 10 : 0, 80)) + "' / '" + mon::esc(first.text.substr(i > 10 ? i - 10 : 0, 80)) + "' [" + m->describe() + "]", &b);
        break;
      }
    }
  }
  c.sample(m->describe());
});
} // namespace
