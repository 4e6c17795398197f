// P15-P17: what the csv and print sinks write, and the command line tool built from them.
#include "harness.hpp"
#include "mutate.hpp"
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/null.hpp>
#include <cppsas7bdat/sink/print.hpp>
#include <cppsas7bdat/source/ifstream.hpp>
#include <cmath>
#include <fcntl.h>
#include <filesystem>
#include <optional>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace hn;
namespace cs = cppsas7bdat;
namespace fs = std::filesystem;
using mon::Bad;
using mon::bad;

namespace {
const char *const MONTHS[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};

// the text of a date and time: microseconds since 1960; accepts month names and numbers, fractions of any length
struct Moment { bool ok{false}, has_date{false}, has_time{false}; int64_t us{0}; };
int64_t days_of(int y, int m, int d) {
  y -= m <= 2;
  const int era = (y >= 0 ? y : y - 399) / 400;
  const unsigned yoe = unsigned(y - era * 400), doy = (153u * unsigned(m > 2 ? m - 3 : m + 9) + 2) / 5 + unsigned(d) - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return int64_t(era) * 146097 + int64_t(doe) - 719468 + 3653;
}
Moment parse_moment(const std::string &s) {
  Moment r;
  size_t p = 0;
  auto num = [&](size_t least, size_t most, int64_t &v) {
    size_t k = 0;
    v = 0;
    while (p < s.size() && k < most && isdigit(static_cast<unsigned char>(s[p]))) { v = v * 10 + (s[p++] - '0'); ++k; }
    return k >= least;
  };
  int64_t y = 0, mo = 0, d = 0, h = 0, mi = 0, se = 0, us = 0;
  if (s.size() >= 10 && s[4] == '-') {
    if (!num(4, 4, y) || s[p++] != '-') return r;
    if (isdigit(static_cast<unsigned char>(s[p]))) { if (!num(2, 2, mo)) return r; }
    else {
      for (int k = 0; k < 12; ++k) if (s.compare(p, 3, MONTHS[k]) == 0) mo = k + 1;
      if (!mo) return r;
      p += 3;
    }
    if (p >= s.size() || s[p++] != '-' || !num(2, 2, d)) return r;
    if (mo < 1 || mo > 12 || d < 1 || d > 31) return r;
    r.has_date = true;
    us = days_of(int(y), int(mo), int(d)) * mon::US_DAY;
    if (p == s.size()) { r.ok = true; r.us = us; return r; }
    if (s[p] != ' ' && s[p] != 'T') return r;
    ++p;
  }
  if (!num(2, 2, h) || p >= s.size() || s[p++] != ':' || !num(2, 2, mi) || p >= s.size() || s[p++] != ':' || !num(2, 2, se)) return r;
  if (h > 23 || mi > 59 || se > 59) return r;
  r.has_time = true;
  int64_t f = 0;
  if (p < s.size() && s[p] == '.') {
    ++p;
    size_t k = 0;
    for (; p < s.size() && isdigit(static_cast<unsigned char>(s[p])) && k < 6; ++k, ++p) f = f * 10 + (s[p] - '0');
    if (!k) return r;
    for (; k < 6; ++k) f *= 10;
  }
  r.ok = p == s.size();
  r.us = us + ((h * 60 + mi) * 60 + se) * 1000000 + f;
  return r;
}
std::string boost_text(const cs::DATETIME &t) { // the way boost writes it
  if (t.is_special()) return "not-a-date-time";
  const int64_t us = (t - mon::epoch1960()).total_microseconds();
  const auto s = mon::text_of_us(us, true); // 2001-02-03 04:05:06
  const int m = std::stoi(s.substr(5, 2));
  return s.substr(0, 5) + MONTHS[m - 1] + s.substr(7);
}

// Does `text` show exactly these rows of these columns?
Bad check_csv(const sg::Model &m, const std::vector<size_t> &idx, const std::vector<size_t> &rows, const std::string &text, uint64_t &fields) {
  size_t p = 0;
  auto expect = [&](const std::string &w) { if (text.compare(p, w.size(), w) == 0) { p += w.size(); return true; } return false; };
  auto here = [&](const std::string &w) { return "at byte " + std::to_string(p) + " '" + mon::esc(text.substr(p, 60)) + "' instead of '" + mon::esc(w, 60) + "'"; };
  auto word = [&] { size_t e = text.find_first_of(",\n", p); if (e == std::string::npos) e = text.size(); std::string s = text.substr(p, e - p); p = e; return s; };
  for (size_t k = 0; k < idx.size(); ++k) {
    const std::string w = (k ? ",\"" : "\"") + m.cols[idx[k]].name + "\"";
    if (!expect(w)) return bad("csv-header", here(w));
  }
  if (!expect("\n")) return bad("csv-header-end", here("\n"));
  for (size_t row : rows) {
    for (size_t k = 0; k < idx.size(); ++k) {
      const sg::Col &c = m.cols[idx[k]];
      const mon::Value v = mon::value_of(m, c, m.rows[row]);
      const std::string where = " row " + std::to_string(row) + " column " + std::to_string(idx[k]) + " '" + mon::esc(c.name) + "'";
      if (k && !expect(",")) return bad("csv-separator", here(",") + where);
      ++fields;
      if (v.kind == sg::K_STRING) {
        if (!expect("\"" + v.s + "\"")) return bad("csv-string", here("\"" + v.s + "\"") + where);
        continue;
      }
      const std::string s = word();
      switch (v.kind) {
      case sg::K_INTEGER: if (s != std::to_string(v.i)) return bad("csv-integer", "'" + mon::esc(s) + "' instead of " + std::to_string(v.i) + where); break;
      case sg::K_NUMBER: {
        if (v.missing) { if (!s.empty()) return bad("csv-missing", "'" + mon::esc(s) + "'" + where); break; }
        char *e = nullptr;
        const double d = std::strtod(s.c_str(), &e);
        if (s.empty() || *e || !mon::same_double(d, v.d)) return bad("csv-number", "'" + mon::esc(s) + "' instead of " + mon::dbl(v.d) + where);
        break;
      }
      case sg::K_UNKNOWN: if (!s.empty()) return bad("csv-unknown", "'" + mon::esc(s) + "'" + where); break;
      default: {
        const bool none = s.empty() || s == "not-a-date-time";
        const double secs = v.kind == sg::K_DATE ? v.d * 86400.0 : v.d;
        if (v.missing) { if (!none) return bad("csv-missing-date", "'" + mon::esc(s) + "'" + where); break; }
        if (!mon::secs_in_calendar(secs)) { if (v.kind != sg::K_DATE && v.kind != sg::K_TIME && mon::secs_off_calendar(secs) && !none) return bad("csv-date-out-of-calendar", "'" + mon::esc(s) + "'" + where); break; }
        if (v.kind == sg::K_DATE && v.d != std::floor(v.d)) break;
        const Moment t = parse_moment(s);
        bool ok = t.ok;
        if (v.kind == sg::K_DATE) ok = ok && t.has_date && !t.has_time && t.us == int64_t(v.d) * mon::US_DAY;
        else if (v.kind == sg::K_DATETIME) ok = ok && t.has_date && t.has_time && mon::us_close(t.us, v.d);
        else {
          ok = ok && !t.has_date && t.has_time;
          const int64_t day = int64_t(std::floor(v.d / 86400.0));
          bool same = false;
          for (int64_t q = day - 1; q <= day + 1; ++q) same = same || mon::us_close(t.us + q * mon::US_DAY, v.d);
          ok = ok && same;
        }
        if (!ok) return bad("csv-date", "'" + mon::esc(s) + "' instead of " + mon::dbl(v.d) + " (" + c.format + ")" + where);
      }
      }
    }
    if (!expect("\n")) return bad("csv-row-end", here("\n") + " row " + std::to_string(row));
  }
  if (p != text.size()) return bad("csv-tail", here(""));
  return {};
}

// The text the print sink has to write, made from what a second reader reports.
std::string print_text(const std::string &bytes, const std::vector<size_t> &rows, const std::vector<size_t> *idx, const sg::Model &m, Bad &x) {
  mon::Feed f(bytes);
  mon::Watch w;
  std::map<size_t, std::string> lines;
  w.on_row = [&](size_t i, cs::Column::PBUF p) {
    std::string l = std::to_string(i);
    if (idx) for (size_t k : *idx) l += "," + w.cols[k].to_string(p);
    else for (auto &c : w.cols) l += "," + c.to_string(p);
    lines[i] = l + "\n";
  };
  std::string out;
  try {
    mon::Source src(f);
    mon::Sink snk(w);
    cs::Reader rd(src, snk);
    const auto &p = rd.properties();
    out = "Properties:\n";
    out += std::string("  format: ") + (m.b64 ? "64bits" : "32bits") + "\n";
    out += std::string("  endianness: ") + (m.be ? "big" : "little") + "\n";
    out += std::string("  platform: ") + (m.platform == '1' ? "unix" : m.platform == '2' ? "windows" : "unknown") + "\n";
    out += "  date created: " + boost_text(p.date_created) + "\n";
    out += "  date modified: " + boost_text(p.date_modified) + "\n";
    out += "  dataset name: " + p.dataset_name + "\n  encoding: " + p.encoding + "\n  file type: " + p.file_type + "\n  SAS release: " + p.sas_release +
           "\n  SAS server type: " + p.sas_server_type + "\n  OS type: " + p.os_type + "\n  OS name: " + p.os_name + "\n";
    out += std::string("  compression: ") + sg::comp_name(m.comp) + "\n";
    out += "  creator: " + p.creator + "\n  creator proc: " + p.creator_proc + "\n  row count: " + std::to_string(p.row_count) + "\n  column count: " + std::to_string(p.column_count) + "\n";
    out += "Columns:\n";
    const std::vector<size_t> all = mon::all_idx(m), &ix = idx ? *idx : all;
    if (p.columns.size() != m.cols.size()) { x = bad("column-count", std::to_string(p.columns.size())); return out; }
    size_t n = 0;
    std::string head = "#";
    for (size_t k : ix) {
      const auto &c = p.columns[k];
      out += "  - column #" + std::to_string(n++) + "\n    name: " + c.name + "\n    label: " + c.label + "\n    format: " + c.format + "\n    type: " + std::string(cs::to_string(c.type)) + "\n";
      head += "," + c.name;
    }
    out += "Data:\n" + head + "\n";
    rd.read_all();
    for (size_t r : rows) out += lines[r];
  } catch (const std::exception &e) { x = bad("exception", e.what()); }
  return out;
}
std::string first_difference(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  const size_t from = i > 20 ? i - 20 : 0;
  return "at byte " + std::to_string(i) + " '" + mon::esc(a.substr(from, 80)) + "' instead of '" + mon::esc(b.substr(from, 80)) + "'";
}
std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
void put(const std::string &p, const std::string &b) { std::ofstream f(p, std::ios::binary); f << b; }

// Reads in some mix of calls; the rows the sink has to see.  mode 0: read_all.
std::vector<size_t> drive(cs::Reader &rd, size_t N, sg::Rng &r, int mode, Ctx &c) {
  std::vector<size_t> rows;
  size_t pos = 0;
  auto take = [&](size_t n) { while (n-- && pos < N) rows.push_back(pos++); };
  if (mode == 0) { rd.read_all(); take(N); return rows; }
  const size_t calls = 1 + r.below(12);
  for (size_t k = 0; k < calls; ++k)
    switch (r.below(6)) {
    case 0: case 1: rd.read_row(); take(1); break;
    case 2: { const size_t n = r.below(10); rd.read_rows(n); take(n); break; }
    case 3: { const size_t n = r.below(6); rd.skip(n); pos = std::min(N, pos + n); break; }
    case 4: if (rd.read_row_no_sink()) ++pos; break;
    default: if (r.pct(20)) { rd.read_all(); take(N); }
    }
  ++c.n["partial_histories"];
  return rows;
}
const sg::Model *model_for(Ctx &c, sg::Rng &r, sg::Model &own, size_t limit) {
  if (c.kase < corpus_files().size()) {
    const sg::Model *k = corpus_model(c.kase);
    if (k && k->bytes.size() <= limit) {
      ++c.n["corpus_files"];
      if (!k->lossy.empty()) { own = *k; own.rows = k->lossy; return &own; }
      return k;
    }
  }
  sg::Opt o = small_opt(r);
  if (r.pct(3)) o.max_cols = 200;
  if (c.kase - corpus_files().size() < 2) { o.fixed_rows = int(r.range(65600, 68000)); o.max_cols = 2; o.max_strlen = 5; ++c.n["files_over_64k_rows"]; }
  own = sg::generate(c.case_seed(1), o);
  return &own;
}
std::vector<size_t> some_columns(const sg::Model &m, sg::Rng &r, std::vector<std::string> &names) {
  std::unordered_set<std::string> in;
  for (auto &col : m.cols) if (r.pct(50)) in.insert(col.name);
  std::vector<size_t> idx;
  for (size_t k = 0; k < m.cols.size(); ++k) if (in.count(m.cols[k].name)) idx.push_back(k);
  names.assign(in.begin(), in.end());
  return idx;
}

template <class MakeSink, class Use>
void through(const sg::Model &m, sg::Rng &r, bool by_ref, const std::vector<std::string> *names, MakeSink make, Use use) {
  mon::Feed f(m.bytes);
  f.eager_eof = r.pct(50);
  cs::ColumnFilter::Include inc;
  if (names) for (auto &n : *names) inc.included.insert(n);
  if (by_ref) {
    auto snk = make();
    if (names) { cs::Reader rd(mon::Source(f), snk, inc); use(rd); }
    else { cs::Reader rd(mon::Source(f), snk); use(rd); }
  } else {
    std::optional<cs::Reader> rd;
    if (names) rd.emplace(mon::Source(f), make(), inc);
    else rd.emplace(mon::Source(f), make());
    if (r.pct(30)) { cs::Reader other(std::move(*rd)); rd.reset(); use(other); }
    else use(*rd);
  }
}
void sink_feature(Ctx &c, const sg::Model &m, const std::vector<size_t> &idx, size_t rows, int how) {
  uint64_t kinds = 0;
  for (size_t k : idx) kinds |= 1ull << sg::kind_of(m.cols[k]);
  c.feature(kinds ^ uint64_t(m.comp) << 10 ^ uint64_t(std::min<size_t>(rows, 40)) << 13 ^ uint64_t(how) << 20 ^ uint64_t(std::min<size_t>(idx.size(), 20)) << 24);
  for (size_t k : idx)
    for (size_t q = 0; q < std::min<size_t>(m.rows.size(), 30); ++q) c.feature(sg::fnv(m.rows[q].data() + m.cols[k].off, std::min<size_t>(m.cols[k].len, 8)) % 4096 + 4096 * (7 + sg::kind_of(m.cols[k])));
}

// ------------------------------------------------------------------ P15
Reg r15("P15", [](Ctx &c) {
  sg::Rng r(c.case_seed());
  sg::Model own;
  const sg::Model *m = model_for(c, r, own, c.thorough ? 6000000 : 400000);
  c.input(*m);
  const std::string file = (c.work.empty() ? "/tmp" : c.work) + "/p15-" + std::to_string(getpid()) + ".csv";
  for (int how = 0; how < 4; ++how) { // stream by value, stream by reference, file by value, file by reference
    std::vector<std::string> names;
    std::vector<size_t> idx = mon::all_idx(*m), rows;
    const bool filtered = r.pct(20);
    if (filtered) idx = some_columns(*m, r, names);
    if (names.empty()) idx = mon::all_idx(*m);
    const auto *np = names.empty() ? nullptr : &names;
    const int mode = r.pct(60) ? 0 : 1;
    std::string text;
    Bad x;
    try {
      std::ostringstream os;
      auto use = [&](cs::Reader &rd) { rows = drive(rd, m->rows.size(), r, mode, c); };
      if (how < 2) { through(*m, r, how & 1, np, [&] { return cs::datasink::csv(os); }, use); text = os.str(); }
      else { through(*m, r, how & 1, np, [&] { return cs::datasink::csv(file.c_str()); }, use); text = slurp(file); unlink(file.c_str()); }
    } catch (const std::exception &e) { x = bad("exception", e.what()); }
    uint64_t fields = 0;
    if (!x) x = check_csv(*m, idx, rows, text, fields);
    c.n["fields"] += fields;
    c.n["csv_rows"] += rows.size();
    ++c.n[how < 2 ? "csv_streams" : "csv_files"];
    sink_feature(c, *m, idx, rows.size(), how);
    if (x) { c.viol(x.tag, x.detail + (how < 2 ? " (stream" : " (file") + (how & 1 ? " by reference) [" : " by value) [") + m->describe() + "]", &m->bytes); break; }
  }
  if (c.kase % 50 == 7) { // an output that cannot be written does not pass for a complete one
    for (const char *p : {"/nonexistent-directory/x.csv", "/dev/full"}) {
      if (!fs::exists(p) && p[1] == 'd') continue;
      bool threw = false;
      try {
        mon::Feed f(m->bytes);
        cs::Reader rd(mon::Source(f), cs::datasink::csv(p));
        rd.read_all();
      } catch (const std::exception &) { threw = true; }
      ++c.n["unwritable_outputs"];
      if (!threw) c.viol("csv-unwritable", std::string("nothing reports that ") + p + " cannot be written");
    }
  }
  c.sample(m->describe());
});

// ------------------------------------------------------------------ P16
Reg r16("P16", [](Ctx &c) {
  sg::Rng r(c.case_seed());
  sg::Model own;
  const sg::Model *m = model_for(c, r, own, c.thorough ? 6000000 : 400000);
  c.input(*m);
  for (int how = 0; how < 2; ++how) {
    std::vector<std::string> names;
    std::vector<size_t> idx = mon::all_idx(*m), rows;
    if (r.pct(20)) idx = some_columns(*m, r, names);
    if (names.empty()) idx = mon::all_idx(*m);
    const auto *np = names.empty() ? nullptr : &names;
    const int mode = r.pct(60) ? 0 : 1;
    Bad x;
    std::ostringstream os;
    try {
      through(*m, r, how, np, [&] { return cs::datasink::print(os); }, [&](cs::Reader &rd) { rows = drive(rd, m->rows.size(), r, mode, c); });
    } catch (const std::exception &e) { x = bad("exception", e.what()); }
    if (!x) {
      const std::string want = print_text(m->bytes, rows, &idx, *m, x), got = os.str();
      if (!x && got != want) {
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
        const size_t d = want.find("Data:\n#"), k = want.find("Columns:\n");
        x = bad(i < k ? "print-properties" : i < d ? "print-columns" : "print-rows", first_difference(got, want));
      }
      c.n["texts_compared"] += want.size();
    }
    c.n["printed_rows"] += rows.size();
    sink_feature(c, *m, idx, rows.size(), how);
    if (x) { c.viol(x.tag, x.detail + (how ? " (by reference) [" : " (by value) [") + m->describe() + "]", &m->bytes); break; }
  }
  c.sample(m->describe());
});

// ------------------------------------------------------------------ P17
struct Ran { int code{-1}; std::string out, err; };
Ran run_cli(const std::string &dir, const std::vector<std::string> &args) {
  const char *exe = std::getenv("CLI");
  if (!exe) throw std::logic_error("sasgen: CLI is not set");
  const std::string o = dir + "/../out.txt", e = dir + "/../err.txt";
  const pid_t pid = fork();
  if (pid == 0) {
    rlimit none{0, 0};
    setrlimit(RLIMIT_CORE, &none);
    if (chdir(dir.c_str())) _exit(98);
    const int fo = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), fe = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fo, 1);
    dup2(fe, 2);
    setenv("ASAN_OPTIONS", "detect_leaks=0:handle_abort=0:exitcode=99:allocator_may_return_null=1", 1);
    std::vector<char *> v{const_cast<char *>(exe)};
    for (auto &a : args) v.push_back(const_cast<char *>(a.c_str()));
    v.push_back(nullptr);
    execv(exe, v.data());
    _exit(97);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Ran r;
  r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
  r.out = slurp(o);
  r.err = slurp(e);
  if (r.code == 97 || r.code == 98) throw std::logic_error("sasgen: cannot run the tool");
  return r;
}
std::map<std::string, std::string> tree(const std::string &dir) {
  std::map<std::string, std::string> t;
  for (auto &e : fs::recursive_directory_iterator(dir)) if (e.is_regular_file()) t[fs::relative(e.path(), dir).string()] = slurp(e.path().string());
  return t;
}
std::string file_name(sg::Rng &r, size_t k) {
  static const std::vector<std::string> dirs{"", "", "sub/", "a.b/", "a.b/c.d/", "with space/", "./", "x.sas7bdat/", ".hid/", "../area/"};
  static const std::vector<std::string> stems{"data", "data set", "d.a.t.a", ".hidden", "ends.", "caf\xc3\xa9", "x,y", "100%", "{}", "-dash", "q\"q", "tab\t", "UPPER", "n"};
  static const std::vector<std::string> exts{".sas7bdat", ".sas7bdat", ".sas7bdat", ".SAS7BDAT", "", ".csv", ".dat", ".sas7bdat.bak"};
  return r.pick(dirs) + "f" + std::to_string(k) + r.pick(stems) + r.pick(exts);
}
// where the csv text belongs: the extension replaced, beside the input, never the input itself
std::string csv_name(const std::string &f) {
  const size_t slash = f.rfind('/'), base = slash == std::string::npos ? 0 : slash + 1, dot = f.rfind('.');
  std::string o = (dot == std::string::npos || dot <= base ? f : f.substr(0, dot)) + ".csv";
  return o == f ? f + ".csv" : o;
}
std::string normal(const std::string &p) {
  auto n = fs::path(p).lexically_normal().string();
  return n.rfind("../area/", 0) == 0 ? n.substr(8) : n;
}

Reg r17("P17", [](Ctx &c) {
  sg::Rng r(c.case_seed());
  const std::string base = (c.work.empty() ? "/tmp" : c.work) + "/p17-" + std::to_string(getpid()) + "-" + std::to_string(c.kase), dir = base + "/area";
  fs::create_directories(dir);
  struct Clean { std::string d; ~Clean() { std::error_code ec; fs::remove_all(d, ec); } } clean{base};
  const int cmd = int(r.below(5)); // csv twice as often
  const bool print = cmd == 2 || cmd == 3, csv = cmd < 2;
  std::vector<std::string> args{print ? "print" : csv ? "csv" : "null"};
  long n = -1;
  if (print && r.pct(60)) {
    n = r.pct(20) ? 0 : r.pct(20) ? 1 : long(r.below(100));
    if (r.pct(10)) n = -1;
    if (r.pct(15)) { // more than any counter of 8, 16 or 32 bits holds
      static const long big[] = {255, 256, 32767, 32768, 65535, 65536, 65537, 2147483647, 100000, 1000000000};
      n = big[r.below(10)];
      ++c.n["large_nlines"];
    }
    if (r.pct(30)) { args.push_back("--nlines"); args.push_back(std::to_string(n)); if (n < 0) { args.pop_back(); args.pop_back(); args.push_back("--nlines=" + std::to_string(n)); } }
    else args.push_back("--nlines=" + std::to_string(n));
    ++c.n["nlines_given"];
  }
  const bool all_rows = !print || n < 0;
  const size_t nf = 1 + (r.pct(50) ? r.below(4) : 0);
  struct In { std::string name; sg::Model m; bool broken; std::string what; };
  std::vector<In> in;
  std::set<std::string> used;
  for (size_t k = 0; k < nf; ++k) {
    In i;
    i.name = file_name(r, k);
    if (used.count(normal(i.name)) || used.count(normal(csv_name(i.name)))) continue;
    used.insert(normal(i.name));
    used.insert(normal(csv_name(i.name)));
    const sg::Model *m = r.pct(10) ? corpus_model(r.below(corpus_files().size())) : nullptr;
    if (m && m->bytes.size() < 300000) { i.m = *m; if (!m->lossy.empty()) i.m.rows = m->lossy; ++c.n["corpus_uses"]; }
    else i.m = sg::generate(c.case_seed(10 + k), small_opt(r));
    i.broken = r.pct(8);
    std::string b = i.m.bytes;
    if (all_rows && r.pct(6)) { // damaged so that it opens, and fails among the rows
      i.broken = false;
      for (int t = 0; t < 40 && !i.broken; ++t) {
        const std::string d = mut::hostile(i.m, r, i.what);
        mon::Feed f(d);
        f.read_limit = 1000 + d.size() / 4;
        f.eager_eof = true;
        bool opened = false;
        try {
          cs::Reader rd{mon::Source(f), cs::datasink::null()};
          opened = true;
          rd.read_all();
        } catch (const mon::Runaway &) {}
        catch (const std::bad_alloc &) {}
        catch (const std::length_error &) {}
        catch (const std::exception &) { i.broken = opened; }
        if (i.broken) b = d;
      }
      c.n["files_failing_midway"] += i.broken;
      if (!i.broken) i.what.clear();
      else i.what = "fails midway, " + i.what;
    } else if (i.broken) {
      switch (r.below(4)) {
      case 0: b = ""; i.what = "empty"; break;
      case 1: b = b.substr(0, r.below(i.m.header_length)); i.what = "header cut"; break;
      case 2: b[r.below(32)] ^= 1; i.what = "wrong magic number"; break;
      default: i.what = "missing";
      }
    }
    const auto p = fs::path(dir + "/" + i.name);
    fs::create_directories(p.parent_path());
    if (i.what != "missing") put(p.string(), b);
    in.push_back(std::move(i));
  }
  bool dash = false;
  for (auto &i : in) dash = dash || i.name[0] == '-';
  if (dash) args.push_back("--");
  // now and then the output is there already and longer
  const bool stale = csv && r.pct(20);
  if (stale) for (auto &i : in) if (!i.broken) put(dir + "/" + csv_name(i.name), std::string(50000, 'x'));
  for (auto &i : in) args.push_back(r.pct(15) ? dir + "/" + i.name : i.name);
  const auto before = tree(dir);
  const Ran ran = run_cli(dir, args);
  auto after = tree(dir);
  ++c.n["runs"];
  ++c.n["runs_" + args[0]];
  std::string cl;
  for (auto &a : args) cl += " '" + mon::esc(a, 60) + "'";
  auto report = [&](const Bad &x, const std::string *b = nullptr) { c.viol(x.tag, x.detail + " (" + cl + "; exit " + std::to_string(ran.code) + ", " + mon::esc(ran.err, 200) + ")", b); };
  c.feature(sg::fnv(cl));
  if (ran.code == 99 || ran.err.find("runtime error:") != std::string::npos || ran.err.find("AddressSanitizer") != std::string::npos) { report(bad("cli-sanitizer", ran.err.substr(0, 1500))); return; }
  size_t first_broken = in.size();
  for (size_t k = in.size(); k-- > 0;) if (in[k].broken) first_broken = k;
  if (first_broken < in.size()) {
    ++c.n["runs_with_unreadable_file"];
    if (ran.code == 0) { report(bad("cli-error-hidden", "file " + in[first_broken].name + " (" + in[first_broken].what + ") and exit status 0")); return; }
  } else if (ran.code != 0) { report(bad("cli-failed", "exit status " + std::to_string(ran.code))); return; }
  // no input changes
  for (auto &i : in) {
    const auto b = before.find(normal(i.name));
    const auto a = after.find(normal(i.name));
    if (b == before.end()) { if (!i.broken) throw std::logic_error("sasgen: lost an input " + i.name); continue; }
    if (a == after.end() || a->second != b->second) { report(bad("cli-input-changed", i.name)); return; }
  }
  std::string want_out;
  std::set<std::string> expected;
  for (size_t k = 0; k < first_broken; ++k) {
    In &i = in[k];
    Bad x;
    std::vector<size_t> rows(i.m.rows.size());
    for (size_t q = 0; q < rows.size(); ++q) rows[q] = q;
    if (print) {
      if (n >= 0 && size_t(n) < rows.size()) rows.resize(size_t(n));
      want_out += print_text(i.m.bytes, rows, nullptr, i.m, x);
    } else if (csv) {
      const std::string o = normal(csv_name(i.name));
      expected.insert(o);
      const auto a = after.find(o);
      uint64_t fields = 0;
      if (a == after.end()) x = bad("cli-csv-missing", o);
      else x = check_csv(i.m, mon::all_idx(i.m), rows, a->second, fields);
      c.n["fields"] += fields;
      ++c.n["csv_files"];
    }
    if (x) { report(x, &i.m.bytes); return; }
  }
  if (first_broken == in.size() ? ran.out != want_out : ran.out.compare(0, want_out.size(), want_out) != 0) {
    // an aborted process may keep what it had not written yet
    if (first_broken == in.size() || want_out.compare(0, ran.out.size(), ran.out) != 0) report(bad("cli-output", first_difference(ran.out, want_out)));
  }
  // nothing else appears or changes
  for (auto &[p, b] : after) {
    const auto q = before.find(p);
    if (expected.count(p)) continue;
    bool later = false; // the output of a file that cannot be read, and what comes behind it
    for (size_t k = first_broken; csv && k < in.size(); ++k) later = later || p == normal(csv_name(in[k].name));
    if (later) continue;
    if (q == before.end()) { report(bad("cli-stray-file", p)); return; }
    if (q->second != b) { report(bad("cli-file-changed", p)); return; }
  }
  if (c.kase % 40 == 5 && csv && first_broken == in.size()) { // an output that cannot be written
    std::error_code ec;
    const auto o = dir + "/" + csv_name(in[0].name);
    fs::remove(o, ec);
    fs::create_directories(o, ec);
    const Ran again = run_cli(dir, {"csv", "--", in[0].name});
    ++c.n["unwritable_outputs"];
    if (again.code == 0) report(bad("cli-unwritable-hidden", o));
  }
  if (c.kase % 40 == 11 && !in.empty()) { // what is not a conversion
    const std::string f = in[0].name[0] == '-' ? "./" + in[0].name : in[0].name;
    const struct { std::vector<std::string> args; bool fine; } uses[] = {{{"--version"}, true}, {{"-v"}, true}, {{"--help"}, true}, {{"-h"}, true}, {{}, false}, {{"csv"}, false}, {{"print"}, false}, {{"null"}, false},
      {{"frob", f}, false}, {{f}, false}, {{"csv", "print", f, "--nope"}, false}, {{"print", "--nlines=x", f}, false}, {{"print", "--nlines=3x", f}, false}, {{"csv", "--nlines=3", f}, false}};
    const auto was = tree(dir);
    for (auto &u : uses) {
      const Ran x = run_cli(dir, u.args);
      std::string how;
      for (auto &a : u.args) how += " '" + mon::esc(a, 60) + "'";
      ++c.n["usages"];
      if (x.code == 99 || x.err.find("runtime error:") != std::string::npos || x.err.find("AddressSanitizer") != std::string::npos) report(bad("cli-sanitizer", x.err.substr(0, 1500)));
      if ((x.code == 0) != u.fine) report(bad("cli-usage", how + ": exit status " + std::to_string(x.code)));
      if (u.fine && u.args[0].find("-v") != std::string::npos && x.out.find(cs::getVersion()) == std::string::npos) report(bad("cli-version", how + " prints '" + mon::esc(x.out, 100) + "'"));
      if (u.fine && u.args[0].find("-h") != std::string::npos && x.out.find("Usage") == std::string::npos) report(bad("cli-help", how + " prints '" + mon::esc(x.out, 100) + "'"));
      if (tree(dir) != was) report(bad("cli-usage-writes", how));
    }
  }
  c.sample(cl + " -> " + std::to_string(ran.code) + ", " + std::to_string(ran.out.size()) + " bytes on stdout");
});
} // namespace
