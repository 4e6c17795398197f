// Writes files of known content, and what they contain, for the checks of the Python and R bindings.
// Not a property of its own: case k makes $BIND_OUT/k.sas7bdat and $BIND_OUT/k.json.
#include "encodings_ref.hpp"
#include "mutate.hpp"
#include <cppsas7bdat/source/ifstream.hpp>

using namespace hn;
namespace cs = cppsas7bdat;

static std::string hex(const std::string &s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) { std::snprintf(b, sizeof b, "%02x", c); o += b; }
  return o;
}
static std::string q(const std::string &s) { return "\"" + s + "\""; }
static std::string bits(double d) {
  uint64_t v;
  char b[20];
  std::memcpy(&v, &d, 8);
  std::snprintf(b, sizeof b, "\"%016llx\"", static_cast<unsigned long long>(v));
  return b;
}
static const char *kind_name(sg::Kind k) {
  switch (k) {
  case sg::K_STRING: return "string";
  case sg::K_NUMBER: return "number";
  case sg::K_INTEGER: return "integer";
  case sg::K_DATETIME: return "datetime";
  case sg::K_DATE: return "date";
  case sg::K_TIME: return "time";
  default: return "unknown";
  }
}
static void write_model(std::ostream &o, const sg::Model &m, bool generated) {
  auto text = [&](const char *k, const std::string &v) { o << q(k) << ": " << q(hex(v)) << ", "; };
  auto num = [&](const char *k, uint64_t v) { o << q(k) << ": " << v << ", "; };
  o << "\"header\": {";
  o << "\"format\": " << q(m.b64 ? "bit64" : "bit32") << ", \"endianness\": " << q(m.be ? "big" : "little") << ", \"platform\": " << q(m.platform == '1' ? "unix" : m.platform == '2' ? "windows" : "unknown")
    << ", \"compression\": " << q(sg::comp_name(m.comp)) << ", ";
  o << "\"date_created\": " << bits(m.created) << ", \"date_modified\": " << bits(m.modified) << ", ";
  text("dataset_name", m.dataset_name); text("encoding", std::string(encodings_ref()[m.enc])); text("file_type", m.file_type);
  text("sas_release", m.release); text("sas_server_type", m.server); text("os_type", m.os_type); text("os_name", m.os_name2.empty() ? m.os_name1 : m.os_name2);
  if (generated && m.comp != sg::RDC) {
    if (m.creator_mode == 0) text("creator_proc", m.creator_proc);
    if (m.creator_mode == 1) text("creator", m.creator);
  }
  num("header_length", m.header_length); num("page_length", m.page_length); num("page_count", m.page_count);
  num("row_length", m.row_length); num("row_count", m.row_count); num("column_count", m.cols.size());
  num("col_count_p1", m.p1); num("col_count_p2", m.p2); num("mix_page_row_count", m.mix_count);
  o << "\"be\": " << (m.be ? "true" : "false") << "},\n\"columns\": [";
  for (size_t k = 0; k < m.cols.size(); ++k) {
    auto &c = m.cols[k];
    o << (k ? ", " : "") << "[" << q(hex(c.name)) << ", " << q(hex(c.label)) << ", " << q(hex(c.format)) << ", " << q(kind_name(sg::kind_of(c))) << "]";
  }
  o << "],\n\"rows\": [";
  const auto &rows = m.lossy.empty() ? m.rows : m.lossy;
  for (size_t i = 0; i < rows.size(); ++i) {
    o << (i ? ",\n[" : "[");
    for (size_t k = 0; k < m.cols.size(); ++k) {
      if (k) o << ", ";
      const auto v = mon::value_of(m, m.cols[k], rows[i]);
      switch (v.kind) {
      case sg::K_STRING: o << q(hex(v.s)); break;
      case sg::K_INTEGER: o << v.i; break;
      default: if (v.missing) o << "null"; else o << bits(v.d);
      }
    }
    o << "]";
  }
  o << "],\n\"nul\": ";
  bool nul = false;
  for (auto &r : rows) for (auto &c : m.cols) if (!c.numeric && mon::value_of(m, c, r).s.find('\0') != std::string::npos) nul = true;
  o << (nul ? "true" : "false");
}

static Reg rb("BIND", [](Ctx &c) {
  const char *dir = std::getenv("BIND_OUT");
  if (!dir) throw std::logic_error("sasgen: BIND_OUT is not set");
  const std::string base = std::string(dir) + "/" + std::to_string(c.kase);
  sg::Rng r(c.case_seed());
  sg::Model gen;
  const sg::Model *m = nullptr;
  if (c.kase % 8 == 7 && !corpus_files().empty()) {
    for (int k = 0; k < 8 && !m; ++k) {
      const size_t i = r.below(corpus_files().size());
      if (corpus_bytes(i).size() > 600000) continue;
      m = corpus_model(i);
      if (m && m->cols.size() * m->rows.size() > 12000) m = nullptr;
    }
  }
  const bool generated = !m;
  if (!m) {
    sg::Opt o = small_opt(r);
    o.unique_names = true;
    o.high_bytes = r.pct(40);
    o.plain_values = r.pct(30);
    if (r.pct(10)) o.max_rows = 2;
    if (r.pct(6)) { o.max_rows = 400; o.max_cols = 4; }
    o.rdc_pad = true;
    if (c.kase == 5 || c.kase == 6) { o.fixed_rows = 2; o.max_cols = 1; o.cols_exact = c.kase == 5 ? r.range(260, 700) : r.range(1025, 1300); o.max_strlen = 6; o.plain_values = c.kase == 6; } // wider than a byte
    if (c.kase == 3) { o.comp = sg::NONE; o.fixed_rows = int(r.range(65600, 68000)); o.max_cols = 2; o.max_strlen = 5; } // more than 16 bits
    gen = sg::generate(c.case_seed(1), o);
    m = &gen;
  }
  std::ofstream o(base + ".json", std::ios::binary);
  o << "{";
  std::string bytes = m->bytes;
  if (r.pct(25) && c.kase != 3 && c.kase != 5 && c.kase != 6) { // damaged: what the library makes of it
    std::string what;
    bytes = mut::hostile(*m, r, what);
    o << "\"damaged\": " << q(what) << ", ";
  }
  std::ofstream(base + ".sas7bdat", std::ios::binary) << bytes;
  uint64_t rows = 0, ends = 0, claimed = 0;
  std::string outcome = "read";
  mon::Watch w;
  w.sequential = false;
  w.on_row = [&](size_t, cs::Column::PBUF p) {
    for (auto &col : w.cols) (void)col.to_string(p);
    if (++rows > 3000 + m->rows.size()) throw mon::Runaway{"many rows"};
  };
  w.on_end = [&] { ++ends; };
  bool built = false;
  alloc_reset_peak();
  alloc_cap(100ull << 20);
  const auto before = alloc_stats().live_bytes;
  try {
    mon::Sink snk(w);
    cs::Reader rd(cs::datasource::ifstream((base + ".sas7bdat").c_str()), snk);
    built = true;
    claimed = rd.properties().row_count;
    rd.read_all();
  } catch (const mon::Runaway &) { outcome = "many"; }
  catch (const std::bad_alloc &) { outcome = "memory"; }
  catch (const std::exception &e) { outcome = built ? "failed" : "refused"; }
  o << "\"peak\": " << alloc_stats().peak_bytes - before << ", \"claimed_rows\": " << claimed << ", ";
  o << "\"outcome\": " << q(outcome) << ", \"outcome_rows\": " << rows << ", \"ends\": " << ends << ",\n";
  write_model(o, *m, generated);
  o << "}\n";
  ++c.n["bind_files"];
});
