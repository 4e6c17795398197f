// P09-P11: histories of reading calls, the sink protocol, column filters.
#include "harness.hpp"
#include <list>
#include <optional>
#include <sstream>

using namespace hn;
namespace cs = cppsas7bdat;
using mon::Bad;
using mon::bad;

namespace {
// What a sink throws: recognised by its number and, as it has to arrive unchanged, by its very type.
struct SinkError { int id; };
struct SinkRuntimeError : std::runtime_error { int id; explicit SinkRuntimeError(int i) : std::runtime_error("sink"), id(i) {} };
struct SinkRangeError : std::out_of_range { int id; explicit SinkRangeError(int i) : std::out_of_range("sink"), id(i) {} };
struct SinkAllocError : std::bad_alloc { int id; explicit SinkAllocError(int i) : id(i) {} };
struct SinkIoError : std::ios_base::failure { int id; explicit SinkIoError(int i) : std::ios_base::failure("sink"), id(i) {} };
[[noreturn]] void throw_sink_error(int kind, int id) {
  switch (kind) {
  case 0: throw SinkError{id};
  case 1: throw SinkRuntimeError(id);
  case 2: throw SinkRangeError(id);
  case 3: throw SinkAllocError(id);
  default: throw SinkIoError(id);
  }
}
// Runs f; nothing: no exception of a sink. Else its number, or -1 when it is not the kind thrown.
template <class F> std::optional<int> caught(int kind, F &&f) {
  try { f(); return std::nullopt; }
  catch (const SinkError &e) { return kind == 0 ? e.id : -1; }
  catch (const SinkRuntimeError &e) { return kind == 1 ? e.id : -1; }
  catch (const SinkRangeError &e) { return kind == 2 ? e.id : -1; }
  catch (const SinkAllocError &e) { return kind == 3 ? e.id : -1; }
  catch (const SinkIoError &e) { return kind == 4 ? e.id : -1; }
}

// A corpus model without the known RDC tail finding, or a generated one.
struct Pick {
  sg::Model own;
  const sg::Model *m{nullptr};
};
const sg::Model *pick_corpus(size_t i, size_t limit, sg::Model &own) {
  const sg::Model *m = corpus_model(i);
  if (!m || m->bytes.size() > limit || m->cols.size() * m->rows.size() > limit / 8) return nullptr;
  if (m->lossy.empty()) return m;
  own = *m;
  own.rows = m->lossy;
  return &own;
}
const sg::Model *pick_model(Ctx &c, sg::Rng &r, sg::Model &own, uint64_t salt, sg::Opt o, unsigned corpus_pct = 6, size_t limit = 600000) {
  if (r.pct(corpus_pct))
    for (int k = 0; k < 20; ++k)
      if (auto m = pick_corpus(r.below(corpus_files().size()), limit, own)) { ++c.n["corpus_uses"]; return m; }
  own = sg::generate(c.case_seed(salt), o);
  return &own;
}

// The model of a reader: where it is, and what its sink has to have seen.
struct Track {
  const sg::Model &m;
  mon::Feed feed;
  mon::Watch w;
  std::unique_ptr<mon::Source> src;
  std::unique_ptr<mon::Sink> snk;
  std::optional<cs::Reader> rd;
  size_t pos{0};
  uint64_t pushed{0}, ends{0};
  std::vector<std::pair<int, uint64_t>> ops;
  bool by_value;
  Track(const sg::Model &mm, int depth, bool eager, bool value) : m(mm), feed(mm.bytes), w(mm, depth), by_value(value) {
    feed.eager_eof = eager;
    feed.read_limit = 20 + 4ull * (m.bytes.size() / m.page_length + 2);
    w.sequential = false;
    w.on_row = [this](size_t i, cs::Column::PBUF) { if (i != expect_index) w.fail(bad("row-index", "got " + std::to_string(i) + " want " + std::to_string(expect_index))); ++expect_index; };
  }
  size_t expect_index{0};
  void open() {
    if (by_value) rd.emplace(mon::Source(feed), mon::Sink(w));
    else {
      src = std::make_unique<mon::Source>(feed);
      snk = std::make_unique<mon::Sink>(w);
      rd.emplace(*src, *snk);
    }
  }
  size_t left() const { return m.rows.size() - pos; }
};

const char *op_name(int k) {
  static const char *n[] = {"read_row", "read_rows", "skip", "read_row_no_sink", "read_all", "end_of_data", "move", "self-check", "move-assign", "swap-default", "move-over-live"};
  return n[k];
}
std::string trace(const Track &t) {
  std::string s;
  size_t from = t.ops.size() > 14 ? t.ops.size() - 14 : 0;
  for (size_t i = from; i < t.ops.size(); ++i) s += std::string(s.empty() ? "" : " ") + op_name(t.ops[i].first) + "(" + std::to_string(t.ops[i].second) + ")";
  return s;
}

Bad check_empty(cs::Reader &e) {
  if (e.current_row_index() != 0) return bad("empty-reader", "row index");
  if (e.read_row() || e.read_rows(3) || e.skip(2) || e.skip(0)) return bad("empty-reader", "a call succeeds");
  if (e.read_row_no_sink() != nullptr) return bad("empty-reader", "a row");
  e.read_all();
  e.end_of_data();
  const auto &p = e.properties();
  if (!p.columns.empty() || p.row_count || p.row_length || p.column_count || p.page_count || !p.dataset_name.empty() || !p.encoding.empty()) return bad("empty-reader", "properties");
  if (!p.date_created.is_special() || p.compression != cs::Compression::none) return bad("empty-reader", "properties");
  return {};
}

uint64_t pick_n(sg::Rng &r, size_t left) {
  switch (r.below(10)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return left;
  case 3: return left + 1;
  case 4: return left ? left - 1 : 0;
  case 5: // more than there is: a little, beyond 32 bits with small low bits, everything
    if (r.pct(40)) return (1ull << (32 + 8 * r.below(4))) + (r.pct(40) ? 0 : r.below(left + 3));
    return r.pct(30) ? ~0ull - r.below(3) : left + r.below(1000);
  default: return r.below(std::max<uint64_t>(2, left / (1 + r.below(6)) + 2));
  }
}

// One random call, checked against the model.
Bad step(Ctx &c, Track &t, sg::Rng &r) {
  const size_t N = t.m.rows.size();
  static const int weights[] = {0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 3, 3, 3, 5, 6, 8, 9, 10};
  int k = weights[r.below(sizeof weights / sizeof *weights)];
  if (r.pct(2)) k = 4;
  uint64_t n = k == 1 || k == 2 ? pick_n(r, t.left()) : 0;
  t.ops.emplace_back(k, n);
  ++c.n[std::string("op_") + op_name(k)];
  c.feature(sg::fnv(&k, sizeof k) ^ (t.left() == 0 ? 1 : t.left() == n ? 2 : n > t.left() ? 3 : n == 0 ? 4 : 5) * 977 ^
            (t.pos < N && t.pos && t.m.row_page[t.pos] != t.m.row_page[t.pos - 1] ? 64 : 0) ^ (t.m.comp + 1) * 131 ^
            (t.ops.size() > 1 ? t.ops[t.ops.size() - 2].first + 1 : 0) * 7919);
  cs::Reader &rd = *t.rd;
  const uint64_t take = std::min<uint64_t>(n, t.left());
  t.expect_index = t.pos;
  auto consumed = [&](uint64_t x) { t.pos += x; t.pushed += x; };
  switch (k) {
  case 0: {
    const bool had = t.left() > 0;
    if (had) consumed(1); else ++t.ends;
    if (rd.read_row() != had) return bad("read_row-result", had ? "false with rows left" : "true without rows");
    break;
  }
  case 1: {
    const bool ok = take == n;
    consumed(take);
    if (!ok) ++t.ends;
    if (rd.read_rows(n) != ok) return bad("read_rows-result", std::to_string(n) + " asked, " + std::to_string(take) + " there");
    break;
  }
  case 2: {
    const bool ok = take == n;
    t.pos += take;
    if (!ok) ++t.ends;
    if (rd.skip(n) != ok) return bad("skip-result", std::to_string(n) + " asked, " + std::to_string(take) + " there");
    break;
  }
  case 3: {
    auto p = rd.read_row_no_sink();
    if (t.left() == 0) { if (p) return bad("no_sink-invented", "row " + std::to_string(t.pos)); break; }
    if (!p) return bad("no_sink-missing", "row " + std::to_string(t.pos));
    Bad b = mon::check_row(t.m, t.w.cols, t.w.idx, t.pos, p, mon::VALUES);
    if (b) { b.tag = "no_sink:" + b.tag; return b; }
    ++t.pos;
    break;
  }
  case 4: consumed(t.left()); ++t.ends; rd.read_all(); break;
  case 5: ++t.ends; rd.end_of_data(); break;
  case 6: {
    cs::Reader tmp(std::move(rd));
    Bad b = check_empty(rd);
    if (b) return b;
    t.rd.emplace(std::move(tmp));
    b = check_empty(tmp);
    if (b) return b;
    break;
  }
  case 8: {
    cs::Reader tmp;
    if (Bad b = check_empty(tmp)) return b;
    tmp = std::move(rd);
    rd = std::move(tmp);
    break;
  }
  case 9: {
    cs::Reader tmp;
    std::swap(tmp, rd);
    if (Bad b = check_empty(rd)) return b;
    std::swap(tmp, rd);
    break;
  }
  case 10: { // over another reader that is in use: what that one was reading is gone, and the moved-from one is empty
    mon::Feed f2(t.m.bytes);
    mon::Watch w2(t.m, 0);
    cs::Reader other{mon::Source(f2), mon::Sink(w2)};
    other.read_rows(r.below(4));
    other = std::move(rd);
    if (Bad b = check_empty(rd)) return b;
    if (f2.live) return bad("move-over-live", "the reader assigned to keeps its old source");
    if (r.pct(50)) { rd = std::move(other); if (Bad b = check_empty(other)) return b; break; }
    mon::Feed f3(t.m.bytes);
    mon::Watch w3(t.m, 0);
    rd = cs::Reader{mon::Source(f3), mon::Sink(w3)};
    rd.read_rows(r.below(4));
    rd = std::move(other);
    if (Bad b = check_empty(other)) return b;
    if (f3.live) return bad("move-over-live", "the reader assigned to keeps its old source");
    break;
  }
  }
  if (t.w.bad_) return t.w.bad_;
  if (t.w.pushed != t.pushed) return bad("rows-to-sink", "got " + std::to_string(t.w.pushed) + " want " + std::to_string(t.pushed) + " after " + op_name(k));
  if (t.w.ends != t.ends) return bad("ends-to-sink", "got " + std::to_string(t.w.ends) + " want " + std::to_string(t.ends) + " after " + op_name(k));
  if (t.rd->current_row_index() != t.pos) return bad("current_row_index", "got " + std::to_string(t.rd->current_row_index()) + " want " + std::to_string(t.pos) + " after " + op_name(k));
  if (r.pct(5)) {
    const auto &p = t.rd->properties();
    if (p.row_count != t.m.row_count || p.row_length != t.m.row_length || p.dataset_name != t.m.dataset_name) return bad("properties-changed", "");
    if (Bad b = mon::check_columns(t.m, p.columns, t.w.idx)) return b;
  }
  return {};
}

sg::Opt hist_opt(sg::Rng &r) {
  sg::Opt o = small_opt(r);
  o.max_cols = 1 + r.below(5);
  o.max_rows = r.pct(30) ? 6 : r.pct(60) ? 50 : 250;
  o.small_pages = r.pct(75);
  return o;
}

Reg r9("P09", [](Ctx &c) {
  sg::Rng r(c.case_seed());
  sg::Model o1, o2;
  sg::Opt ho = hist_opt(r);
  const bool many = c.kase < 12;
  if (many) { ho.fixed_rows = int(r.range(65600, 140000)); ho.max_cols = 1; ho.max_strlen = 5; ho.force_kind = r.pct(50) ? 0 : 5; ++c.n["files_over_64k_rows"]; }
  const sg::Model *m = pick_model(c, r, o1, 1, ho, many ? 0 : 6);
  c.input(*m);
  Track a(*m, mon::VALUES, r.pct(50), r.pct(50));
  std::optional<Track> b;
  const bool two = r.pct(25);
  const sg::Model *m2 = two ? pick_model(c, r, o2, 2, hist_opt(r)) : nullptr;
  Bad x;
  Track *cur = &a;
  try {
    a.open();
    if (two) { b.emplace(*m2, int(mon::VALUES), r.pct(50), r.pct(50)); b->open(); ++c.n["interleaved_readers"]; }
    const size_t steps = r.pct(30) ? 60 : 4 + r.below(22);
    for (size_t i = 0; i < steps && !x; ++i) {
      cur = two && r.pct(50) ? &*b : &a;
      x = step(c, *cur, r);
      ++c.n["calls"];
    }
    for (Track *t : {&a, two ? &*b : nullptr}) { // then the rest, and beyond
      if (!t || x) continue;
      cur = t;
      t->ops.emplace_back(4, 0);
      t->expect_index = t->pos;
      t->rd->read_all();
      t->pushed += t->left();
      t->pos = t->m.rows.size();
      ++t->ends;
      for (int k = 0; k < 2; ++k) {
        if (t->rd->read_row() || t->rd->read_row_no_sink() || t->rd->skip(1)) x = bad("row-after-end", "");
        t->ends += 2;
      }
      if (!x) x = t->w.bad_;
      if (!x && (t->w.pushed != t->pushed || t->w.ends != t->ends || t->rd->current_row_index() != t->pos))
        x = bad("end-state", "pushed " + std::to_string(t->w.pushed) + "/" + std::to_string(t->pushed) + " ends " + std::to_string(t->w.ends) + "/" + std::to_string(t->ends) + " index " + std::to_string(t->rd->current_row_index()));
    }
  } catch (const std::exception &e) { x = bad("exception", e.what()); }
  catch (const mon::Runaway &e) { x = bad("runaway", e.what); }
  if (x) c.viol(x.tag, x.detail + " after: " + trace(*cur) + " [" + cur->m.describe() + "]", &cur->m.bytes);
  c.sample(m->describe() + ": " + trace(a));
});

// ------------------------------------------------------------------ P10: the sink protocol, throwing sinks
// The callbacks a history causes, as text: P<cols>, R<row>, E.
struct Script {
  std::vector<std::string> got, want;
  int throw_at{-1}; // number of the callback that throws
  int kind{0};      // what it throws
  int n{0};
};
struct ScriptSink {
  Script *s;
  mon::Watch *w;
  void hit(std::string e) {
    s->got.push_back(std::move(e));
    if (s->n++ == s->throw_at) throw_sink_error(s->kind, s->throw_at);
  }
  void set_properties(const cs::Properties &p) {
    if (Bad b = mon::check_columns(*w->m, p.columns, w->idx)) w->fail(b);
    w->cols = cs::COLUMNS(p.columns);
    hit("P");
  }
  void push_row(const size_t i, cs::Column::PBUF p) {
    if (Bad b = mon::check_row(*w->m, w->cols, w->idx, i, p, mon::VALUES)) w->fail(b);
    hit("R" + std::to_string(i));
  }
  void end_of_data() { hit("E"); }
};
// a sink type that can only be referred to
struct RefOnlySink : ScriptSink {
  RefOnlySink(Script *s, mon::Watch *w) : ScriptSink{s, w} {}
  RefOnlySink(const RefOnlySink &o) : ScriptSink(o) { w->fail(bad("sink-copied", "a sink passed by reference is copied")); }
  RefOnlySink(RefOnlySink &&o) noexcept : ScriptSink(o) { w->fail(bad("sink-moved", "a sink passed by reference is moved")); }
};

// Runs a fixed list of calls; an exception of the sink is caught at the call and the list continues.
Bad run_script(const sg::Model &m, const std::vector<std::pair<int, uint64_t>> &calls, int throw_at, int kind, bool by_ref, bool eager, uint64_t &events, int &thrown) {
  Script s;
  s.throw_at = throw_at;
  s.kind = kind;
  mon::Watch w(m);
  mon::Feed f(m.bytes);
  f.eager_eof = eager;
  f.read_limit = 20 + 4ull * (m.bytes.size() / m.page_length + 2);
  RefOnlySink ref(&s, &w);
  int n = 0;
  thrown = 0;
  // the expected callbacks; a throwing callback ends the call
  auto cb = [&](std::string e) { s.want.push_back(std::move(e)); return n++ != throw_at; };
  size_t pos = 0;
  const size_t N = m.rows.size();
  Bad x;
  try {
    std::optional<cs::Reader> rd;
    const bool ok = cb("P");
    const auto first = caught(kind, [&] {
      if (by_ref) rd.emplace(mon::Source(f), ref);
      else rd.emplace(mon::Source(f), ScriptSink{&s, &w});
    });
    if (!first && !ok) return bad("exception-lost", "an exception of set_properties does not reach the caller");
    if (first) {
      ++thrown;
      if (ok || *first != throw_at) return bad("exception-wrong", "from construction");
      if (s.got != s.want) return bad("callbacks-after-failed-construction", std::to_string(s.got.size()));
      events += s.got.size();
      return w.bad_;
    }
    for (auto [k, cnt] : calls) {
      bool expect_throw = false;
      int expect_ret = -1;
      uint64_t left = N - pos;
      switch (k) {
      case 0:
        if (left) { expect_throw = !cb("R" + std::to_string(pos)); ++pos; expect_ret = 1; } else { expect_throw = !cb("E"); expect_ret = 0; }
        break;
      case 1: case 4: {
        if (k == 4) cnt = ~0ull;
        uint64_t done = 0;
        while (done < cnt && pos < N && !expect_throw) { expect_throw = !cb("R" + std::to_string(pos)); ++pos; ++done; }
        expect_ret = done == cnt;
        if (!expect_throw && done < cnt) expect_throw = !cb("E");
        break;
      }
      case 2: { uint64_t d = std::min(cnt, left); pos += d; expect_ret = d == cnt; if (d < cnt) expect_throw = !cb("E"); break; }
      case 3: if (left) ++pos; break;
      case 5: expect_throw = !cb("E"); break;
      }
      bool threw = false;
      int ret = -1;
      const auto e = caught(kind, [&] {
        switch (k) {
        case 0: ret = rd->read_row(); break;
        case 1: ret = rd->read_rows(cnt); break;
        case 2: ret = rd->skip(cnt); break;
        case 3: rd->read_row_no_sink(); break;
        case 4: rd->read_all(); break;
        case 5: rd->end_of_data(); break;
        }
      });
      if (e) { threw = true; ++thrown; if (*e != throw_at) return bad("exception-wrong", std::to_string(*e)); }
      if (s.got != s.want) {
        size_t i = 0;
        while (i < s.got.size() && i < s.want.size() && s.got[i] == s.want[i]) ++i;
        return bad("callbacks", std::string("after ") + op_name(k) + "(" + std::to_string(cnt) + ") callback " + std::to_string(i) + ": got " + (i < s.got.size() ? s.got[i] : "none") + " want " + (i < s.want.size() ? s.want[i] : "none") + " throw_at=" + std::to_string(throw_at));
      }
      if (threw != expect_throw) return bad(threw ? "exception-invented" : "exception-lost", op_name(k));
      if (!threw && ret >= 0 && expect_ret >= 0 && ret != expect_ret && k != 4) return bad("result", op_name(k));
      if (rd->current_row_index() != pos) return bad("current_row_index", std::string("got ") + std::to_string(rd->current_row_index()) + " want " + std::to_string(pos) + " after " + op_name(k) + (threw ? " that threw" : ""));
    }
    const size_t before = s.got.size();
    rd.reset();
    if (s.got.size() != before) return bad("callback-from-destructor", s.got.back());
  } catch (const std::exception &e) { return bad("exception", e.what()); }
  catch (const mon::Runaway &e) { return bad("runaway", e.what); }
  events += s.got.size();
  if (f.live) return bad("source-leaked", std::to_string(f.live));
  return w.bad_;
}

Reg r10("P10", [](Ctx &c) {
  sg::Rng r(c.case_seed());
  sg::Model own;
  sg::Opt o = hist_opt(r);
  o.max_rows = r.pct(60) ? 8 : 40;
  const sg::Model *m = pick_model(c, r, own, 1, o, 3, 100000);
  c.input(*m);
  std::vector<std::pair<int, uint64_t>> calls;
  size_t est = 0;
  for (size_t i = 0, n = 1 + r.below(8); i < n; ++i) {
    static const int ks[] = {0, 0, 1, 1, 2, 3, 4, 5};
    int k = ks[r.below(8)];
    size_t left = m->rows.size() - std::min(est, m->rows.size());
    uint64_t cnt = k == 1 || k == 2 ? pick_n(r, left) : 0;
    calls.emplace_back(k, cnt);
    est += k == 4 ? left : k == 1 || k == 2 ? std::min<uint64_t>(cnt, left) : 1;
    c.feature(sg::fnv(&calls.back().first, 4) ^ (i << 8) ^ std::min<uint64_t>(cnt, 9) << 16 ^ m->comp << 28);
  }
  if (r.pct(60)) calls.emplace_back(4, 0);
  const bool by_ref = r.pct(50), eager = r.pct(50);
  uint64_t ev = 0;
  int th = 0;
  Bad x = run_script(*m, calls, -1, 0, by_ref, eager, ev, th);
  const int total = int(ev);
  c.n["callbacks"] += ev;
  int at = -1;
  // then with an exception at each of the callbacks (or a sample of them)
  for (int k = 0; k < std::min(total, 12) && !x; ++k) {
    at = total <= 12 ? k : k == 0 ? 0 : k == 11 ? total - 1 : int(r.below(uint64_t(total)));
    const int kind = int(r.below(5));
    const auto before = alloc_stats();
    x = run_script(*m, calls, at, kind, by_ref, eager, ev, th);
    if (!x && th != 1) x = bad("exception-count", std::to_string(th));
    const auto after = alloc_stats();
    if (!x && after.live_blocks != before.live_blocks) { // once more: caches of the run time do not grow twice
      const auto b2 = alloc_stats();
      x = run_script(*m, calls, at, kind, by_ref, eager, ev, th);
      const auto b3 = alloc_stats();
      if (!x) x = run_script(*m, calls, at, kind, by_ref, eager, ev, th);
      const auto b4 = alloc_stats();
      if (!x && b3.live_blocks > b2.live_blocks && b4.live_blocks > b3.live_blocks) x = bad("leak-after-exception", std::to_string(b4.live_blocks - b3.live_blocks) + " blocks");
    }
    ++c.n["exceptions_injected"];
  }
  std::string cs_;
  for (auto &p : calls) cs_ += std::string(cs_.empty() ? "" : " ") + op_name(p.first) + "(" + std::to_string(p.second) + ")";
  if (x) c.viol(x.tag, x.detail + " calls: " + cs_ + (by_ref ? " sink by reference" : " sink by value") + " [" + m->describe() + "]", &m->bytes);
  c.sample(m->describe() + ": " + cs_ + ", " + std::to_string(std::min(total, 12)) + " exception points");
});

// ------------------------------------------------------------------ P11: filters
struct PredFilter { // any predicate on what a column shows
  int kind;
  uint64_t salt;
  std::vector<std::string> *seen;
  bool operator()(const std::string &name, const std::string &label, const std::string &format, cs::Column::Type t, size_t len) const {
    switch (kind) {
    case 0: return t == cs::Column::Type::string;
    case 1: return t != cs::Column::Type::string;
    case 2: return len == 8;
    case 3: return label.empty();
    case 4: return !format.empty();
    default: return sg::fnv(name, salt) & 1;
    }
  }
  bool accept(const cs::Column &c) const {
    if (seen) seen->push_back(c.name);
    return (*this)(c.name, c.label, c.format, c.type, c.length());
  }
};
struct RefOnlyFilter : PredFilter {
  int *copies;
  RefOnlyFilter(PredFilter p, int &n) : PredFilter(p), copies(&n) {}
  RefOnlyFilter(const RefOnlyFilter &o) : PredFilter(o), copies(o.copies) { ++*copies; }
};

// all properties but the columns
std::string text_of(const cs::DATETIME &d) { return d.is_special() ? "special" : boost::posix_time::to_iso_string(d); }
std::string other_properties(const cs::Properties &p) {
  std::ostringstream o;
  o << int(p.format) << '|' << int(p.endianness) << '|' << int(p.platform) << '|' << p.encoding << '|' << p.dataset_name << '|' << p.file_type << '|'
    << text_of(p.date_created) << '|' << text_of(p.date_modified) << '|' << p.sas_release << '|' << p.sas_server_type << '|' << p.os_type << '|' << p.os_name << '|'
    << p.header_length << '|' << p.page_length << '|' << p.page_count << '|' << int(p.compression) << '|' << p.creator << '|' << p.creator_proc << '|'
    << p.row_length << '|' << p.row_count << '|' << p.column_count << '|' << p.col_count_p1 << '|' << p.col_count_p2 << '|' << p.mix_page_row_count << '|' << p.lcs << '|' << p.lcp;
  return o.str();
}

Reg r11("P11", [](Ctx &c) {
  sg::Rng r(c.case_seed());
  sg::Model own;
  sg::Opt o = small_opt(r);
  o.max_cols = r.pct(70) ? 8 : 40;
  o.max_rows = 12;
  o.unique_names = r.pct(60);
  const sg::Model *m = nullptr;
  if (c.kase < corpus_files().size()) m = pick_corpus(c.kase, 400000, own);
  if (!m) m = pick_model(c, r, own, 1, o, 5, 200000);
  c.input(*m);
  // a set of names: some of the columns, and some that do not exist
  auto names = [&](unsigned pct) {
    std::set<std::string> s;
    for (auto &col : m->cols) if (r.pct(pct)) s.insert(col.name);
    if (r.pct(30)) s.insert("no such column");
    if (r.pct(15)) s.insert("");
    if (r.pct(20) && !m->cols.empty()) { // near misses
      std::string n = m->cols[r.below(m->cols.size())].name;
      std::string u = n;
      for (auto &ch : u) ch = char(std::isupper(static_cast<unsigned char>(ch)) ? std::tolower(static_cast<unsigned char>(ch)) : std::toupper(static_cast<unsigned char>(ch)));
      s.insert(u == n ? n + "x" : u);
      s.insert(n + " ");
      if (n.size() > 1) s.insert(n.substr(0, n.size() - 1));
    }
    return s;
  };
  const unsigned pct = r.pct(15) ? 0 : r.pct(15) ? 100 : unsigned(20 + r.below(60));
  const int which = int(r.below(6));
  cs::ColumnFilter::Include inc;
  cs::ColumnFilter::Exclude exc;
  cs::ColumnFilter::IncludeExclude both;
  PredFilter pred{int(r.below(6)), r.next(), nullptr};
  std::vector<std::string> asked;
  pred.seen = &asked;
  if (which == 0) inc.included = names(pct);
  if (which == 1) exc.excluded = names(pct);
  if (which == 2 || which == 3) { if (r.pct(60)) both.included = names(pct); if (r.pct(60)) both.excluded = names(50); }
  std::vector<size_t> idx;
  for (size_t i = 0; i < m->cols.size(); ++i) {
    const auto &col = m->cols[i];
    bool a = true;
    switch (which) {
    case 0: a = inc.included.count(col.name) > 0; break;
    case 1: a = exc.excluded.count(col.name) == 0; break;
    case 2: case 3: a = !both.included.empty() ? both.included.count(col.name) > 0 : both.excluded.count(col.name) == 0; break;
    default: a = pred(col.name, col.label, col.format, mon::type_of(sg::kind_of(col)), col.len);
    }
    if (a) idx.push_back(i);
  }
  c.feature(uint64_t(which) ^ std::min<uint64_t>(idx.size(), 20) << 4 ^ std::min<uint64_t>(m->cols.size(), 40) << 10 ^ uint64_t(m->comp) << 20 ^ uint64_t(pred.kind) << 24 ^ uint64_t(!both.included.empty()) << 30 ^ uint64_t(!both.excluded.empty()) << 31);
  mon::Feed f(m->bytes), plain_feed(m->bytes);
  f.eager_eof = r.pct(50);
  mon::Watch w(*m, mon::VALUES | mon::TEXT);
  w.idx = idx;
  Bad x;
  try {
    mon::Watch plain_watch(*m, 0);
    cs::Reader plain{mon::Source(plain_feed), mon::Sink(plain_watch)};
    mon::Source src(f);
    mon::Sink snk(w);
    std::optional<cs::Reader> rd;
    const int how = int(r.below(3)); // lvalue, rvalue, const
    auto open = [&](auto &flt) {
      using F = std::decay_t<decltype(flt)>;
      if (how == 0) rd.emplace(src, snk, flt);
      else if (how == 1) rd.emplace(src, snk, F(flt));
      else rd.emplace(src, snk, std::as_const(flt));
    };
    if (which == 0) open(inc);
    else if (which == 1) open(exc);
    else if (which == 2 || which == 3) open(both);
    else if (which == 4) open(pred);
    else {
      int copies = 0;
      RefOnlyFilter ro(pred, copies);
      rd.emplace(src, snk, ro);
      if (copies) x = bad("filter-copied", "a filter passed by reference is copied");
    }
    const auto &p = rd->properties();
    if (!x) x = mon::check_columns(*m, p.columns, idx);
    if (!x && (p.column_count != m->cols.size() || p.row_count != m->row_count || p.row_length != m->row_length || p.col_count_p1 != m->p1 || p.dataset_name != m->dataset_name))
      x = bad("properties", "changed by the filter");
    if (const auto a = other_properties(p), b = other_properties(plain.properties()); !x && a != b) x = bad("properties", "changed by the filter: " + a + " instead of " + b);
    if (!x && which >= 4) { // the filter was asked about the columns as they are
      std::vector<std::string> all;
      for (auto &col : m->cols) all.push_back(col.name);
      std::set<std::string> a(asked.begin(), asked.end()), b(all.begin(), all.end());
      if (a != b) x = bad("filter-asked", "the filter was not asked about every column");
    }
    if (!x) {
      rd->read_all();
      x = w.bad_;
      if (!x && w.pushed != m->rows.size()) x = bad("row-count", "got " + std::to_string(w.pushed) + " want " + std::to_string(m->rows.size()));
      if (!x && w.ends != 1) x = bad("end_of_data-count", std::to_string(w.ends));
    }
  } catch (const std::exception &e) { x = bad("exception", e.what()); }
  c.n["filters"] += 1;
  c.n["columns_kept"] += idx.size();
  c.n["columns_dropped"] += m->cols.size() - idx.size();
  if (idx.empty()) ++c.n["filters_keeping_nothing"];
  static const char *wn[] = {"include", "exclude", "both", "both", "predicate", "predicate-ref"};
  if (x) c.viol(x.tag, x.detail + " filter " + wn[which] + " keeps " + std::to_string(idx.size()) + " of " + std::to_string(m->cols.size()) + " [" + m->describe() + "]", &m->bytes);
  c.sample(std::string(wn[which]) + " keeps " + std::to_string(idx.size()) + " of " + std::to_string(m->cols.size()) + " [" + m->describe() + "]");
});
} // namespace
