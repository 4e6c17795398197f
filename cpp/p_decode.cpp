// P01-P08: what the reader delivers is what the file says.
#include "encodings_ref.hpp"
#include "harness.hpp"

using namespace hn;
namespace cs = cppsas7bdat;

static mon::Bad read_once(Ctx &c, const sg::Model &m, int depth) {
  mon::Feed f(m.bytes);
  f.eager_eof = c.kase & 1;
  f.read_limit = 20 + 4ull * (m.bytes.size() / m.page_length + 2);
  mon::Watch w(m, depth);
  auto r = mon::read_all(m, f, w);
  c.n["rows_delivered"] += w.pushed;
  return r.b;
}
static void decode_case(Ctx &c, const sg::Model &m, int depth, const char *where) {
  mon::Bad b = read_once(c, m, depth);
  if (!b) return;
  if (!m.lossy.empty()) { // rows that end in the last two bytes of an RDC stream: a known finding, P03 only
    sg::Model l = m;
    l.rows = m.lossy;
    mon::Bad b2 = read_once(c, l, depth);
    if (!b2) {
      ++c.n["rdc_tail_files"];
      if (c.prop == "P03") c.viol("rdc-tail-dropped", b.detail + " [" + m.describe() + "]", &m.bytes);
      return;
    }
  }
  c.viol(std::string(where) + b.tag, b.detail + " [" + m.describe() + "]", &m.bytes);
}

// every corpus file is visited once (cases 0..n-1), then generated files
static bool corpus_case(Ctx &c, int depth, std::function<bool(const sg::Model &)> want) {
  if (c.kase >= corpus_files().size()) return false;
  const sg::Model *m = corpus_model(c.kase);
  if (!m || !want(*m)) { ++c.n["corpus_files_skipped"]; return true; }
  ++c.n["corpus_files"];
  c.input(*m);
  const auto &p = corpus_files()[c.kase];
  decode_case(c, *m, depth, "corpus:");
  if (c.kase % 40 == 0) c.sample("corpus " + p.substr(p.rfind('/') + 1) + ": " + m->describe());
  return true;
}

// Files whose numbers of rows, columns, pages, bytes per page or subheaders per page need more than 16 bits.
static void beyond_16_bits(sg::Opt &o, sg::Rng &r, uint64_t which) {
  sg::Opt n;
  n.comp = o.comp;
  n.rdc_pad = o.rdc_pad;
  n.fixed_rows = int(r.range(65530, 70000));
  n.max_cols = 1;
  n.force_kind = r.pct(50) ? 0 : 5;
  n.max_strlen = 9;
  switch (which) {
  case 0: break;                                          // rows
  case 1: n.min_page = r.range(1100000, 2500000); break;  // rows on large pages
  case 4:                                                 // many more rows
    n.fixed_rows = int(n.comp == sg::NONE ? r.range(262145, 270000) : r.range(131073, 132000));
    n.exact_strlen = 1;
    n.force_kind = 0;
    break;
  case 2:                                                 // pages
    if (n.comp != sg::NONE) { n.fixed_rows = 300; n.max_cols = 20; n.min_page = r.range(1100000, 4000000); n.max_strlen = 200; n.force_kind = -1; break; }
    n.b64 = 0; n.force_kind = 0; n.exact_strlen = 450; n.small_pages = true; break;
  default: n.fixed_rows = int(r.range(1, 3)); n.max_cols = 1; n.cols_exact = r.range(32700, 34000); n.force_kind = -1; n.max_strlen = 3; break; // columns
  }
  o = n;
}

static void rows_prop(Ctx &c, sg::Comp comp) {
  if (corpus_case(c, mon::VALUES, [&](const sg::Model &m) { return m.comp == comp && m.cols.size() * m.rows.size() < (c.thorough ? ~0ull : 400000ull); })) return;
  sg::Rng r(c.case_seed());
  sg::Opt o = small_opt(r);
  o.comp = comp;
  o.rdc_pad = r.pct(50);
  const unsigned k = unsigned(r.below(100));
  if (k < 4) { o.long_rows = true; o.max_cols = 5; o.max_rows = 25; }
  else if (k < 6) { o.huge_rows = true; o.max_cols = 14; o.max_rows = 3; }
  else if (k < 9) { o.wide = true; o.max_rows = 4; }
  else if (k < 14) { o.max_rows = 700; o.small_pages = true; o.max_cols = 4; }
  else if (k < 30 && comp != sg::NONE) {
    o.force_kind = 0;
    o.max_strlen = r.pct(40) ? 300 : 40;
    if (r.pct(30)) { o.max_strlen = r.pct(50) ? 1500 : 6000; o.max_cols = 3; o.max_rows = 20; }
  }
  else if (k < 40 && comp != sg::NONE) { o.max_cols = 1; o.force_kind = 0; o.max_strlen = 60; }
  if (const uint64_t k = c.kase - corpus_files().size(); k < 10 || (c.thorough && k % 1000 < 5)) beyond_16_bits(o, r, k % 5);
  sg::Model m = sg::generate(c.case_seed(1), o);
  c.input(m);
  c.n["files_over_64k_rows"] += m.rows.size() > 65536;
  c.n["files_over_128k_rows"] += m.rows.size() > 131072;
  c.n["files_over_64k_pages"] += m.npages > 65536;
  c.n["files_with_pages_over_1M"] += m.page_length > 1048576;
  c.n["pages"] += m.npages;
  c.n["rows_over_64k"] += m.row_length > 65536;
  c.n["zero_row_pages"] += m.n_zero;
  c.n["skip_pages"] += m.n_skip;
  c.n["mix_pages"] += m.n_mix;
  c.n["packed_rows"] += m.n_packed;
  c.n["short_packed_rows"] += m.n_short;
  c.n["raw_rows_in_compressed"] += comp == sg::NONE ? 0 : m.n_raw;
  for (int b = 20; b < 30; ++b) if (m.cmd_mask >> b & 1) ++c.n[std::string(comp == sg::RLE ? "rle_long_" : "rdc_long_") + std::to_string(b - 20)];
  for (int b = 0; b < 18; ++b) if (m.cmd_mask >> b & 1) ++c.n[std::string(comp == sg::RLE ? "rle_cmd_" : "rdc_cmd_") + std::to_string(b)];
  decode_case(c, m, mon::VALUES, "");
  c.sample(m.describe());
}
static Reg r1("P01", [](Ctx &c) { rows_prop(c, sg::NONE); });
static Reg r2("P02", [](Ctx &c) { rows_prop(c, sg::RLE); });
static Reg r3("P03", [](Ctx &c) { rows_prop(c, sg::RDC); });

// ------------------------------------------------------------------ P04
static mon::Bad check_header(const sg::Model &m, const cs::Properties &p, bool generated) {
  using mon::bad;
  auto eq = [](const char *t, const std::string &g, const std::string &w) { return g == w ? mon::Bad{} : bad(t, "got '" + mon::esc(g) + "' want '" + mon::esc(w) + "'"); };
  auto num = [](const char *t, uint64_t g, uint64_t w) { return g == w ? mon::Bad{} : bad(t, "got " + std::to_string(g) + " want " + std::to_string(w)); };
  auto date = [](const char *t, const cs::DATETIME &g, double w) -> mon::Bad {
    if (std::isnan(w) || !mon::secs_in_calendar(w)) return g.is_special() ? mon::Bad{} : bad(t, "a date for a missing value");
    if (g.is_special()) return bad(t, "missing instead of " + mon::dbl(w));
    const int64_t us = (g - mon::epoch1960()).total_microseconds();
    return mon::us_close(us, w) ? mon::Bad{} : bad(t, "got " + mon::fmt_us(us) + " want " + mon::dbl(w));
  };
  mon::Bad b;
#define CK(x) if ((b = (x))) return b
  CK(eq("format", std::string(cs::to_string(p.format)), m.b64 ? "64bits" : "32bits"));
  CK(eq("endianness", std::string(cs::to_string(p.endianness)), m.be ? "big" : "little"));
  CK(eq("platform", std::string(cs::to_string(p.platform)), m.platform == '1' ? "unix" : m.platform == '2' ? "windows" : "unknown"));
  CK(date("date_created", p.date_created, m.created));
  CK(date("date_modified", p.date_modified, m.modified));
  CK(eq("dataset_name", p.dataset_name, m.dataset_name));
  CK(eq("encoding", p.encoding, encodings_ref()[m.enc]));
  CK(eq("file_type", p.file_type, m.file_type));
  CK(eq("sas_release", p.sas_release, m.release));
  CK(eq("sas_server_type", p.sas_server_type, m.server));
  CK(eq("os_type", p.os_type, m.os_type));
  CK(eq("os_name", p.os_name, m.os_name2.empty() ? m.os_name1 : m.os_name2));
  CK(num("header_length", p.header_length, m.header_length));
  CK(num("page_length", p.page_length, m.page_length));
  CK(num("page_count", p.page_count, m.page_count));
  CK(eq("compression", std::string(cs::to_string(p.compression)), sg::comp_name(m.comp)));
  CK(num("row_length", p.row_length, m.row_length));
  CK(num("row_count", p.row_count, m.row_count));
  CK(num("column_count", p.column_count, m.cols.size()));
  CK(num("col_count_p1", p.col_count_p1, m.p1));
  CK(num("col_count_p2", p.col_count_p2, m.p2));
  CK(num("mix_page_row_count", p.mix_page_row_count, m.mix_count));
  if (generated) {
    if (m.comp == sg::NONE || m.comp == sg::RLE) {
      if (m.creator_mode == 0) CK(eq("creator_proc", p.creator_proc, m.creator_proc));
      if (m.creator_mode == 1) CK(eq("creator", p.creator, m.creator));
    }
  }
#undef CK
  return b;
}

static Reg r4("P04", [](Ctx &c) {
  sg::Model gen;
  const sg::Model *m;
  bool generated = false;
  if (c.kase < corpus_files().size()) {
    m = corpus_model(c.kase);
    if (!m) { ++c.n["corpus_files_skipped"]; return; }
    ++c.n["corpus_files"];
  } else {
    sg::Rng r(c.case_seed());
    sg::Opt o = small_opt(r);
    o.max_cols = 3;
    o.max_rows = 4;
    o.small_pages = r.pct(70);
    o.huge_counts = r.pct(15);
    if (r.pct(1)) { o.small_pages = false; o.min_page = r.range(66000, 5000000); }
    gen = sg::generate(c.case_seed(1), o);
    m = &gen;
    generated = true;
  }
  c.input(*m);
  c.feature(sg::fnv(m->release + m->os_type) ^ m->enc * 7919ull ^ m->platform ^ (m->a1 ? 11 : 0) ^ (m->b64 ? 5 : 0) ^ (m->be ? 3 : 0));
  mon::Feed f(m->bytes);
  mon::Watch w;
  mon::Source src(f);
  mon::Bad in_sink, after;
  w.on_props = [&] { in_sink = check_header(*m, *w.props_ptr, generated); };
  mon::Sink snk(w);
  try {
    cs::Reader reader(src, snk);
    after = check_header(*m, reader.properties(), generated);
    ++c.n["headers_checked"];
    if (!after && !in_sink) { // reading does not disturb them
      while (reader.read_row() && w.pushed < 50) {}
      after = check_header(*m, reader.properties(), generated);
    }
    cs::Reader moved(std::move(reader));
    if (!after) after = check_header(*m, moved.properties(), generated);
  } catch (const std::exception &e) { after = mon::bad("exception", e.what()); }
  if (in_sink) c.viol("sink:" + in_sink.tag, in_sink.detail + " [" + m->describe() + "]", &m->bytes);
  if (after) c.viol(after.tag, after.detail + " [" + m->describe() + "]", &m->bytes);
  c.sample(m->dataset_name + "|" + m->release + "|" + m->server + "|" + m->os_type + " enc=" + std::to_string(m->enc) + " " + m->describe());
});

// ------------------------------------------------------------------ P05
static Reg r5("P05", [](Ctx &c) {
  sg::Model gen;
  const sg::Model *m;
  if (c.kase < corpus_files().size()) {
    m = corpus_model(c.kase);
    if (!m) { ++c.n["corpus_files_skipped"]; return; }
    ++c.n["corpus_files"];
  } else {
    sg::Rng r(c.case_seed());
    sg::Opt o = small_opt(r);
    o.max_cols = r.pct(60) ? 12 : 60;
    o.max_rows = 3;
    if (r.pct(10)) { o.wide = true; if (r.pct(30)) { o.sparse_meta = o.small_pages = true; o.force_kind = 5; } }
    else if (r.pct(2)) { o.huge_rows = true; o.max_cols = 14; o.max_rows = 1; }
    if (const uint64_t k = c.kase - corpus_files().size(); k < 8) {
      o = sg::Opt();
      o.fixed_rows = int(r.below(2));
      o.max_strlen = 3;
      o.wide = r.pct(50);
      o.cols_exact = k < 2 ? r.range(65530, 70000) : k < 4 ? r.range(32760, 34000) : r.range(1500, 12000);
    }
    gen = sg::generate(c.case_seed(1), o);
    m = &gen;
  }
  c.input(*m);
  for (auto &col : m->cols) { ++c.n["columns"]; c.feature(sg::fnv(col.format) ^ (col.numeric ? col.len : 77)); }
  c.n["files_over_32k_columns"] += m->cols.size() > 32767; c.n["files_over_64k_columns"] += m->cols.size() > 65535;
  c.n["text_blocks"] += m->n_text; c.n["files_over_100_metadata_pages"] += m->n_meta_pages > 100; c.n["files_over_256_text_blocks"] += m->n_text > 256; c.n["rows_over_64k"] += m->row_length > 65536; c.n["name_subheaders"] += m->n_name; c.n["attribute_subheaders"] += m->n_attr;
  mon::Feed f(m->bytes);
  mon::Watch w(*m);
  mon::Source src(f);
  mon::Sink snk(w);
  mon::Bad b;
  try {
    cs::Reader reader(src, snk);
    b = mon::check_columns(*m, reader.properties().columns, w.idx);
    if (!b) { // sorted per type, as the sinks of the bindings use them
      const cs::Columns by(reader.properties().columns);
      auto part = [&](const cs::COLUMNS &v, sg::Kind k, const char *t) {
        size_t n = 0;
        for (auto &col : m->cols) if (sg::kind_of(col) == k) { if (n >= v.size() || v[n].name != col.name) return mon::bad("columns-by-type", t); ++n; }
        return n == v.size() ? mon::Bad{} : mon::bad("columns-by-type", t);
      };
      for (auto x : {part(by.strings, sg::K_STRING, "strings"), part(by.numbers, sg::K_NUMBER, "numbers"), part(by.integers, sg::K_INTEGER, "integers"),
                     part(by.datetimes, sg::K_DATETIME, "datetimes"), part(by.dates, sg::K_DATE, "dates"), part(by.times, sg::K_TIME, "times")}) if (x && !b) b = x;
    }
    if (!b) b = w.bad_;
  } catch (const std::exception &e) { b = mon::bad("exception", e.what()); }
  if (b) c.viol(b.tag, b.detail + " [" + m->describe() + "]", &m->bytes);
  c.sample(m->describe() + " first column '" + (m->cols.empty() ? "" : mon::esc(m->cols[0].name + "' label '" + m->cols[0].label + "' format '" + m->cols[0].format)) + "'");
});

// ------------------------------------------------------------------ P06 P07 P08: values and texts
static void values_prop(Ctx &c, std::vector<int> kinds, int depth) {
  if (corpus_case(c, depth, [&](const sg::Model &m) { return m.cols.size() * m.rows.size() < (c.thorough ? 4000000ull : 150000ull); })) return;
  sg::Rng r(c.case_seed());
  sg::Opt o = small_opt(r);
  o.force_kind = r.pct(80) ? r.pick(kinds) : -1;
  if (r.pct(50)) o.comp = sg::NONE;
  o.max_rows = 60;
  o.zero_pages = o.odd_counts = false;
  if (r.pct(1)) { o.huge_rows = true; o.max_cols = 12; o.max_rows = 3; o.force_kind = -1; }
  sg::Model m = sg::generate(c.case_seed(1), o);
  c.input(m);
  for (auto &row : m.rows) for (auto &col : m.cols) c.feature(sg::fnv(row.data() + col.off, std::min<size_t>(col.len, 12)) % 65536 + 65536 * sg::kind_of(col));
  decode_case(c, m, depth, "");
  c.sample(m.describe());
}
static Reg r6("P06", [](Ctx &c) { values_prop(c, {1, 1, 5}, mon::VALUES | mon::TEXT | mon::CROSS); });
static Reg r7("P07", [](Ctx &c) { values_prop(c, {2, 3, 4}, mon::VALUES | mon::TEXT | mon::CROSS); });
static Reg r8("P08", [](Ctx &c) { values_prop(c, {0}, mon::VALUES | mon::TEXT | mon::CROSS); });
