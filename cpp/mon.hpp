// Monitors: a data source and a data set sink that watch what the reader does, and the oracle that
// says what every value has to be.  Uses the public interface of the library only.
#pragma once
#include "sasgen.hpp"
#include <cctype>
#include <cstdio>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <cppsas7bdat/column.hpp>
#include <cppsas7bdat/filter/column.hpp>
#include <cppsas7bdat/properties.hpp>
#include <cppsas7bdat/reader.hpp>

namespace mon {
namespace cs = cppsas7bdat;

// Raised by a monitor when the reader will not stop: not derived from std::exception on purpose, so
// that it is never mistaken for an error the library reports.
struct Runaway { const char *what; };

// ------------------------------------------------------------------ the source monitor
struct Feed {
  const std::string *bytes{nullptr};
  size_t pos{0};
  bool eofbit{false};
  bool eager_eof{false};      // true: eof() as soon as everything was consumed; false: like std::ifstream
  uint64_t reads{0}, read_limit{~0ull}, reads_after_end{0}, eof_calls{0};
  uint64_t fail_at{~0ull};    // number of the read that fails without end of file
  uint64_t throw_at{~0ull};   // number of the read that throws
  bool partial_on_fail{true}; // write part of the bytes before failing
  bool keep_log{false};
  std::vector<std::pair<uint64_t, uint64_t>> log;
  std::function<void()> on_read;
  int live{0}, destroyed{0}, copies{0};
  explicit Feed(const std::string &b) : bytes(&b) {}
};
struct SourceError : std::runtime_error { SourceError() : std::runtime_error("monitor: source failure") {} };

// The library has to move it or to refer to it: copies are counted.
struct Source {
  Feed *f;
  explicit Source(Feed &x) : f(&x) { ++f->live; }
  Source(Source &&o) noexcept : f(o.f) { o.f = nullptr; }
  Source(const Source &o) : f(o.f) { if (f) { ++f->live; ++f->copies; } } // nobody should: counted instead of forbidden
  Source &operator=(const Source &) = delete;
  ~Source() { if (f) { --f->live; ++f->destroyed; } }
  bool eof() {
    if (++f->eof_calls > f->read_limit) throw Runaway{"eof() polled without end"};
    return f->eager_eof ? f->pos >= f->bytes->size() : f->eofbit;
  }
  bool read_bytes(void *p, const size_t n) {
    const uint64_t k = f->reads++;
    if (f->on_read) f->on_read();
    if (f->reads > f->read_limit) throw Runaway{"unbounded number of reads"};
    if (f->pos >= f->bytes->size() && n) ++f->reads_after_end;
    const size_t left = f->bytes->size() - f->pos;
    if (f->keep_log) f->log.emplace_back(f->pos, n);
    if (k == f->throw_at) throw SourceError();
    if (k == f->fail_at) {
      if (f->partial_on_fail) std::memcpy(p, f->bytes->data() + f->pos, std::min(left, n / 2));
      return false;
    }
    if (f->eofbit && !f->eager_eof) return false;
    if (n > left) {
      if (left) std::memcpy(p, f->bytes->data() + f->pos, left);
      f->pos = f->bytes->size();
      f->eofbit = true;
      return false;
    }
    if (n) std::memcpy(p, f->bytes->data() + f->pos, n);
    f->pos += n;
    return true;
  }
};

// ------------------------------------------------------------------ the oracle for values
inline bool space_or_nul(unsigned char c) { return c == 0 || c == ' ' || (c >= 9 && c <= 13); }

struct Value {
  sg::Kind kind{sg::K_UNKNOWN};
  std::string s;
  double d{0}; // numbers and date-like values, as stored
  int32_t i{0};
  bool missing{false};
};

inline double stored_double(const unsigned char *p, uint32_t len, bool be) {
  uint64_t v = 0;
  for (uint32_t k = 0; k < len; ++k) v |= uint64_t(be ? p[k] : p[len - 1 - k]) << (56 - 8 * k);
  double d;
  std::memcpy(&d, &v, 8);
  return d;
}
inline Value value_of(const sg::Model &m, const sg::Col &c, const std::string &row) {
  Value v;
  v.kind = sg::kind_of(c);
  auto p = reinterpret_cast<const unsigned char *>(row.data()) + c.off;
  switch (v.kind) {
  case sg::K_STRING: {
    size_t n = c.len;
    while (n && space_or_nul(p[n - 1])) --n;
    v.s.assign(reinterpret_cast<const char *>(p), n);
    break;
  }
  case sg::K_INTEGER:
    if (c.len == 1) v.i = p[0];
    else v.i = int16_t(uint16_t(m.be ? p[0] << 8 | p[1] : p[1] << 8 | p[0]));
    break;
  case sg::K_UNKNOWN: break;
  default: v.d = stored_double(p, c.len, m.be); v.missing = std::isnan(v.d);
  }
  return v;
}

// proleptic Gregorian calendar, days since 1960-01-01
struct Civil { int64_t y; unsigned m, d; };
inline Civil civil_of(int64_t days) {
  int64_t z = days - 3653 + 719468; // 1960-01-01 is day -3653 of 1970-01-01
  const int64_t era = (z >= 0 ? z : z - 146096) / 146097;
  const unsigned doe = unsigned(z - era * 146097);
  const unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  const unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const unsigned mp = (5 * doy + 2) / 153;
  const unsigned d = doy - (153 * mp + 2) / 5 + 1, mo = mp < 10 ? mp + 3 : mp - 9;
  return {int64_t(yoe) + era * 400 + (mo <= 2), mo, d};
}
constexpr int64_t US_DAY = 86400000000ll;
// Is the calendar (years 1400..9999) able to hold it?  Values within a few days of its ends: not judged.
inline bool days_in_calendar(double d) { return d >= -204531.0 && d < 2936547.0; }
inline bool days_off_calendar(double d) { return d < -204545.0 || d > 2936560.0; }
inline bool secs_in_calendar(double s) { return days_in_calendar(s / 86400.0); }
inline bool secs_off_calendar(double s) { return days_off_calendar(s / 86400.0); }

inline bool us_close(int64_t us, double secs) { // us is the nearest microsecond of secs
  const long double x = static_cast<long double>(secs) * 1e6L;
  const long double d = x - static_cast<long double>(us);
  return d <= 0.52L && d >= -0.52L;
}
inline std::string fmt_us(int64_t us) { return std::to_string(us) + "us"; }

inline std::string text_of_us(int64_t us, bool date_part) {
  char b[96];
  int64_t day = 0, t = us;
  if (date_part) {
    day = us / US_DAY;
    if (us % US_DAY < 0) --day;
    t = us - day * US_DAY;
  }
  const int64_t s = t / 1000000, f = t % 1000000;
  std::string o;
  if (date_part) {
    const Civil c = civil_of(day);
    std::snprintf(b, sizeof b, "%04d-%02u-%02u ", int(c.y), c.m, c.d);
    o = b;
  }
  std::snprintf(b, sizeof b, "%02d:%02d:%02d", int(s / 3600), int(s / 60 % 60), int(s % 60));
  o += b;
  if (f) { std::snprintf(b, sizeof b, ".%06d", int(f)); o += b; }
  return o;
}
inline std::string text_of_day(int64_t day) {
  char b[64];
  const Civil c = civil_of(day);
  std::snprintf(b, sizeof b, "%04d-%02u-%02u", int(c.y), c.m, c.d);
  return b;
}
inline const boost::posix_time::ptime &epoch1960() {
  static const boost::posix_time::ptime e(boost::gregorian::date(1960, 1, 1));
  return e;
}
inline bool same_double(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return std::memcmp(&a, &b, 8) == 0;
}
inline std::string dbl(double d) {
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", d);
  return b;
}
inline std::string esc(const std::string &s, size_t lim = 80) {
  std::string o;
  char b[8];
  for (unsigned char c : s.substr(0, lim)) {
    if (c >= 0x20 && c < 0x7F && c != '\\') o.push_back(char(c));
    else { std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  if (s.size() > lim) o += "...(" + std::to_string(s.size()) + ")";
  return o;
}

using CT = cs::Column::Type;
inline CT type_of(sg::Kind k) {
  switch (k) {
  case sg::K_STRING: return CT::string;
  case sg::K_NUMBER: return CT::number;
  case sg::K_INTEGER: return CT::integer;
  case sg::K_DATETIME: return CT::datetime;
  case sg::K_DATE: return CT::date;
  case sg::K_TIME: return CT::time;
  default: return CT::unknown;
  }
}

// What a check found wrong.  `tag` is stable (it becomes part of the violation key).
struct Bad {
  std::string tag, detail;
  explicit operator bool() const { return !tag.empty(); }
};
inline Bad bad(std::string tag, std::string detail) { return {std::move(tag), std::move(detail)}; }

// counters the evidence reports
struct Seen {
  uint64_t rows{0}, values{0}, strings{0}, numbers{0}, integers{0}, dates{0}, datetimes{0}, times{0}, missing{0}, texts{0};
};
inline Seen &seen() { static thread_local Seen s; return s; }
inline void seen_add(const Seen &o) { Seen &s = seen(); s.rows += o.rows; s.values += o.values; s.strings += o.strings; s.numbers += o.numbers; s.integers += o.integers; s.dates += o.dates; s.datetimes += o.datetimes; s.times += o.times; s.missing += o.missing; s.texts += o.texts; }

// sets of getters checked
enum Depth { VALUES = 1, TEXT = 2, CROSS = 4 };

inline Bad check_value(const cs::Column &col, const Value &v, cs::Column::PBUF p, int depth) {
  Seen &S = seen();
  ++S.values;
  switch (v.kind) {
  case sg::K_STRING: {
    ++S.strings;
    const auto g = col.get_string(p);
    if (std::string(g) != v.s) return bad("string-value", "got '" + esc(std::string(g)) + "' want '" + esc(v.s) + "'");
    if (depth & TEXT) {
      ++S.texts;
      const auto t = col.to_string(p);
      if (t != v.s) return bad("string-text", "got '" + esc(t) + "' want '" + esc(v.s) + "'");
    }
    if (depth & CROSS) {
      if (!std::isnan(col.get_number(p))) return bad("string-as-number", dbl(col.get_number(p)));
      if (!col.get_date(p).is_special()) return bad("string-as-date", "a date");
      if (!col.get_datetime(p).is_special()) return bad("string-as-datetime", "a datetime");
    }
    break;
  }
  case sg::K_INTEGER: {
    ++S.integers;
    const auto g = col.get_integer(p);
    if (g != v.i) return bad("integer-value", "got " + std::to_string(g) + " want " + std::to_string(v.i));
    const auto n = col.get_number(p);
    if (!same_double(n, double(v.i))) return bad("integer-number", "got " + dbl(n) + " want " + std::to_string(v.i));
    if (depth & TEXT) {
      ++S.texts;
      const auto t = col.to_string(p);
      if (t != std::to_string(v.i)) return bad("integer-text", "got '" + esc(t) + "' want " + std::to_string(v.i));
    }
    if (depth & CROSS && !col.get_string(p).empty()) return bad("integer-as-string", esc(std::string(col.get_string(p))));
    break;
  }
  case sg::K_NUMBER: {
    ++S.numbers;
    S.missing += v.missing;
    const auto g = col.get_number(p);
    if (!same_double(g, v.d)) return bad("number-value", "got " + dbl(g) + " want " + dbl(v.d));
    if (depth & TEXT) {
      ++S.texts;
      const auto t = col.to_string(p);
      char b[400];
      std::snprintf(b, sizeof b, "%f", v.d);
      const bool ok = v.missing ? (t == "nan" || t == "-nan") : t == b;
      if (!ok) return bad("number-text", "got '" + esc(t) + "' want '" + b + "'");
    }
    if (depth & CROSS && !col.get_string(p).empty()) return bad("number-as-string", esc(std::string(col.get_string(p))));
    break;
  }
  case sg::K_DATETIME: {
    ++S.datetimes;
    S.missing += v.missing;
    const auto g = col.get_datetime(p);
    if (v.missing) {
      if (!g.is_special()) return bad("datetime-missing", "a missing value reads as a date");
      if (depth & TEXT && !(++S.texts, col.to_string(p)).empty()) return bad("datetime-missing-text", col.to_string(p));
      if (depth & CROSS && !col.get_date(p).is_special()) return bad("datetime-missing-date", "a date");
      break;
    }
    if (!secs_in_calendar(v.d)) { // the calendar cannot hold it
      if (secs_off_calendar(v.d) && !g.is_special()) return bad("datetime-out-of-calendar", dbl(v.d) + " reads as " + fmt_us((g - epoch1960()).total_microseconds()));
      break;
    }
    if (g.is_special()) return bad("datetime-value", "missing instead of " + dbl(v.d));
    const int64_t us = (g - epoch1960()).total_microseconds();
    if (!us_close(us, v.d)) return bad("datetime-value", "got " + fmt_us(us) + " want " + dbl(v.d) + "s");
    if (depth & CROSS) {
      int64_t day = us / US_DAY;
      if (us % US_DAY < 0) --day;
      const auto dd = col.get_date(p);
      if (dd.is_special() || (dd - epoch1960().date()).days() != day) return bad("datetime-date", "wrong date part of " + dbl(v.d));
      const auto tt = col.get_time(p);
      if (tt.is_special() || tt.total_microseconds() != us - day * US_DAY) return bad("datetime-time", "wrong time part of " + dbl(v.d));
      if (!same_double(col.get_number(p), v.d)) return bad("datetime-number", dbl(col.get_number(p)));
    }
    if (depth & TEXT) {
      ++S.texts;
      const auto t = col.to_string(p), w = text_of_us(us, true);
      if (t != w) return bad("datetime-text", "got '" + esc(t) + "' want '" + w + "'");
    }
    break;
  }
  case sg::K_DATE: {
    ++S.dates;
    S.missing += v.missing;
    const auto g = col.get_date(p);
    if (v.missing) {
      if (!g.is_special()) return bad("date-missing", "a missing value reads as a date");
      if (depth & TEXT && !(++S.texts, col.to_string(p)).empty()) return bad("date-missing-text", col.to_string(p));
      if (depth & CROSS && !col.get_datetime(p).is_special()) return bad("date-missing-datetime", "a datetime");
      break;
    }
    if (!days_in_calendar(v.d) || v.d != std::floor(v.d)) break; // seconds fallback and fractions: not specified
    const int64_t day = int64_t(v.d);
    const Civil c = civil_of(day);
    if (g.is_special() || g.year() != c.y || g.month() != c.m || g.day() != c.d)
      return bad("date-value", dbl(v.d) + " must be " + text_of_day(day) + (g.is_special() ? " got missing" : " got another date"));
    if (depth & CROSS) {
      const auto dt = col.get_datetime(p);
      if (dt.is_special() || (dt - epoch1960()).total_microseconds() != day * US_DAY) return bad("date-datetime", "wrong midnight of " + text_of_day(day));
      if (!same_double(col.get_number(p), v.d)) return bad("date-number", dbl(col.get_number(p)));
    }
    if (depth & TEXT) {
      ++S.texts;
      const auto t = col.to_string(p);
      if (t != text_of_day(day)) return bad("date-text", "got '" + esc(t) + "' want " + text_of_day(day));
    }
    break;
  }
  case sg::K_TIME: {
    ++S.times;
    S.missing += v.missing;
    const auto g = col.get_time(p);
    if (v.missing) {
      if (!g.is_special()) return bad("time-missing", "a missing value reads as a time");
      if (depth & TEXT && !(++S.texts, col.to_string(p)).empty()) return bad("time-missing-text", col.to_string(p));
      break;
    }
    if (!secs_in_calendar(v.d)) break;
    if (g.is_special()) return bad("time-value", "missing instead of " + dbl(v.d));
    const int64_t us = g.total_microseconds();
    // the time of day: whole days do not count
    const int64_t day = int64_t(std::floor(v.d / 86400.0));
    bool ok = us >= 0 && us < US_DAY;
    if (ok) { ok = false; for (int64_t k = day - 1; k <= day + 1; ++k) ok = ok || us_close(us + k * US_DAY, v.d); }
    if (!ok) return bad("time-value", "got " + fmt_us(us) + " want the time of day of " + dbl(v.d) + "s");
    if (depth & CROSS && !same_double(col.get_number(p), v.d)) return bad("time-number", dbl(col.get_number(p)));
    if (depth & TEXT) {
      ++S.texts;
      const auto t = col.to_string(p), w = text_of_us(us, false);
      if (t != w) return bad("time-text", "got '" + esc(t) + "' want '" + w + "'");
    }
    break;
  }
  default:
    if (depth & CROSS) {
      if (!col.get_string(p).empty() || !std::isnan(col.get_number(p))) return bad("unknown-value", "a value for an unsupported column");
    }
  }
  return {};
}

// columns[k] shows model column idx[k]
inline Bad check_row(const sg::Model &m, const cs::COLUMNS &cols, const std::vector<size_t> &idx, size_t row, cs::Column::PBUF p, int depth) {
  if (row >= m.rows.size()) return bad("row-invented", "row " + std::to_string(row) + " of " + std::to_string(m.rows.size()));
  if (!p && m.row_length) return bad("row-null", "null buffer");
  ++seen().rows;
  for (size_t k = 0; k < idx.size(); ++k) {
    const sg::Col &c = m.cols[idx[k]];
    Bad b = check_value(cols[k], value_of(m, c, m.rows[row]), p, depth);
    if (b) {
      b.detail = "row " + std::to_string(row) + " column " + std::to_string(idx[k]) + " '" + esc(c.name) + "' " + esc(c.format) + "/" +
                 std::to_string(c.len) + "@" + std::to_string(c.off) + ": " + b.detail;
      return b;
    }
  }
  return {};
}
inline std::vector<size_t> all_idx(const sg::Model &m) {
  std::vector<size_t> v(m.cols.size());
  for (size_t i = 0; i < v.size(); ++i) v[i] = i;
  return v;
}
inline Bad check_columns(const sg::Model &m, const cs::COLUMNS &cols, const std::vector<size_t> &idx) {
  if (cols.size() != idx.size()) return bad("column-count", "got " + std::to_string(cols.size()) + " want " + std::to_string(idx.size()));
  for (size_t k = 0; k < idx.size(); ++k) {
    const sg::Col &c = m.cols[idx[k]];
    const auto w = " of column " + std::to_string(idx[k]);
    if (cols[k].name != c.name) return bad("column-name", "got '" + esc(cols[k].name) + "' want '" + esc(c.name) + "'" + w);
    if (cols[k].label != c.label) return bad("column-label", "got '" + esc(cols[k].label) + "' want '" + esc(c.label) + "'" + w);
    if (cols[k].format != c.format) return bad("column-format", "got '" + esc(cols[k].format) + "' want '" + esc(c.format) + "'" + w);
    if (cols[k].length() != c.len) return bad("column-length", "got " + std::to_string(cols[k].length()) + " want " + std::to_string(c.len) + w);
    const CT t = type_of(sg::kind_of(c));
    if (cols[k].type != t)
      return bad("column-type", "got " + std::string(cs::to_string(cols[k].type)) + " want " + std::string(cs::to_string(t)) + w + " format '" + esc(c.format) + "' len " + std::to_string(c.len));
  }
  return {};
}

// ------------------------------------------------------------------ the sink monitor
// Shared state of a sink: checks the sink protocol and (if a model is given) every row.
struct Watch {
  const sg::Model *m{nullptr};
  std::vector<size_t> idx;
  int depth{VALUES};
  bool check_cols{true};
  // state
  int props{0};
  uint64_t pushed{0}, ends{0}, ends_before_props{0}, pushes_before_props{0};
  uint64_t row_limit{~0ull};
  size_t next_row{0}; // the row that has to come next
  bool sequential{true};
  cs::COLUMNS cols;
  const cs::Properties *props_ptr{nullptr};
  Bad bad_;
  int live{0}, destroyed{0}, copies{0};
  std::function<void(size_t, cs::Column::PBUF)> on_row;
  std::function<void()> on_props, on_end;
  Watch() = default;
  explicit Watch(const sg::Model &mm, int d = VALUES) : m(&mm), idx(all_idx(mm)), depth(d) {}
  void fail(Bad b) { if (!bad_) bad_ = std::move(b); }
};

struct Sink {
  Watch *w;
  explicit Sink(Watch &x) : w(&x) { ++w->live; }
  Sink(Sink &&o) noexcept : w(o.w) { o.w = nullptr; }
  Sink(const Sink &o) : w(o.w) { if (w) { ++w->live; ++w->copies; } } // nobody should: counted instead of forbidden
  Sink &operator=(const Sink &) = delete;
  ~Sink() { if (w) { --w->live; ++w->destroyed; } }
  void set_properties(const cs::Properties &p) {
    ++w->props;
    w->cols = cs::COLUMNS(p.columns);
    w->props_ptr = &p;
    if (w->props > 1) w->fail(bad("set_properties-twice", std::to_string(w->props)));
    if (w->m && w->check_cols) w->fail(check_columns(*w->m, p.columns, w->idx));
    if (w->on_props) w->on_props();
  }
  void push_row(const size_t i, cs::Column::PBUF p) {
    ++w->pushed;
    if (w->pushed > w->row_limit) throw Runaway{"more rows than the file can hold"};
    if (!w->props) { ++w->pushes_before_props; w->fail(bad("push_row-before-set_properties", std::to_string(i))); }
    if (w->sequential && i != w->next_row) w->fail(bad("row-index", "got " + std::to_string(i) + " want " + std::to_string(w->next_row)));
    w->next_row = i + 1;
    if (w->m && w->props && !w->bad_) w->fail(check_row(*w->m, w->cols, w->idx, i, p, w->depth));
    if (w->on_row) w->on_row(i, p);
  }
  void end_of_data() {
    ++w->ends;
    if (!w->props) { ++w->ends_before_props; w->fail(bad("end_of_data-before-set_properties", "")); }
    if (w->on_end) w->on_end();
  }
};

// Reads a whole file through the monitors: every row, in order, exactly once, then the end.
struct ReadAll {
  Bad b;
  bool threw{false};
  std::string what;
};
inline ReadAll read_all(const sg::Model &m, Feed &f, Watch &w) {
  ReadAll r;
  Source src(f);
  Sink snk(w);
  try {
    cs::Reader reader(src, snk);
    if (w.props != 1) { r.b = bad("set_properties-missing", std::to_string(w.props)); return r; }
    reader.read_all();
    if (!w.bad_ && w.pushed != m.rows.size()) w.fail(bad("row-count", "got " + std::to_string(w.pushed) + " want " + std::to_string(m.rows.size())));
    if (!w.bad_ && w.ends != 1) w.fail(bad("end_of_data-count", std::to_string(w.ends)));
    if (!w.bad_ && reader.current_row_index() != m.rows.size()) w.fail(bad("current_row_index", std::to_string(reader.current_row_index())));
  } catch (const std::exception &e) {
    r.threw = true;
    r.what = e.what();
    r.b = w.bad_ ? w.bad_ : bad("exception", e.what());
    return r;
  } catch (const Runaway &e) {
    r.b = bad("runaway", e.what);
    return r;
  }
  r.b = w.bad_;
  return r;
}

// ------------------------------------------------------------------ header properties
inline std::string trim_text(const std::string &s) { // surrounding blanks and trailing unprintable bytes
  size_t a = 0, b = s.size();
  while (a < b && (s[a] == ' ' || (s[a] >= 9 && s[a] <= 13))) ++a;
  while (b > a && space_or_nul(static_cast<unsigned char>(s[b - 1]))) --b;
  return s.substr(a, b - a);
}
} // namespace mon
