// sasgen: writes SAS7BDAT files from a dataset model; the model is the ground truth the
// monitors compare against.  Independent of /repo (no header of the library is included).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>

namespace sg {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed ^ 0xA0761D6478BD642Full)) { s = mix(s + mix(seed)); }
  static uint64_t mix(uint64_t z) {
    z = (z ^ (z >> 33)) * 0xFF51AFD7ED558CCDull;
    z = (z ^ (z >> 33)) * 0xC4CEB9FE1A85EC53ull;
    return z ^ (z >> 33);
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool pct(unsigned p) { return below(100) < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto q = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) { h ^= q[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

enum Comp { NONE, RLE, RDC };
inline const char *comp_name(Comp c) { return c == NONE ? "none" : c == RLE ? "RLE" : "RDC"; }

struct Col {
  std::string name, label, format;
  bool numeric{true};
  uint32_t len{8};
  uint64_t off{0};
};

struct Model {
  bool be{false}, b64{false}, a1{false};
  Comp comp{NONE};
  // header
  uint8_t platform{'1'}, enc{20};
  std::string dataset_name, file_type, release, server, os_type, os_name1, os_name2;
  double created{0}, modified{0};
  uint32_t header_length{0}, page_length{0}, page_count{0};
  // metadata
  std::string creator, creator_proc;
  int creator_mode{0}; // 0: creator_proc (blank literal / RLE), 1: creator text, 2: nothing
  uint64_t lcs{0}, lcp{0}; // as written
  uint64_t row_length{0}, row_count{0}, p1{0}, p2{0}, mix_count{0};
  std::vector<Col> cols;
  std::vector<std::string> rows; // rows the reader has to deliver, in order (raw bytes)
  std::vector<std::string> lossy; // RDC: the rows without what the last 2 bytes of their stream say (known finding), or empty
  std::vector<uint32_t> row_page; // page (0-based) each row lives on
  uint32_t npages{0};
  std::string bytes; // the file
  // what the layout exercised (for evidence)
  uint32_t n_meta_pages{0}, n_mix{0}, n_data{0}, n_skip{0}, n_zero{0}, n_raw{0}, n_packed{0}, n_short{0}, n_text{0}, n_name{0}, n_attr{0};
  uint64_t cmd_mask{0}; // RLE/RDC commands used
  std::vector<uint64_t> meta_offsets; // file offsets of interesting fields, for the structured mutator
  size_t isz() const { return b64 ? 8 : 4; }
  size_t po() const { return b64 ? 32 : 16; }
  size_t ta() const { return (a1 ? 4 : 0) + (b64 ? 4 : 0); }
  std::string describe() const {
    return std::string(be ? "BE" : "LE") + (b64 ? "64" : "32") + (a1 ? "a" : "") + " " + comp_name(comp) +
           " hl=" + std::to_string(header_length) + " pl=" + std::to_string(page_length) +
           " pages=" + std::to_string(npages) + " cols=" + std::to_string(cols.size()) +
           " rl=" + std::to_string(row_length) + " rows=" + std::to_string(rows.size()) + "/" +
           std::to_string(row_count) + " meta=" + std::to_string(n_meta_pages) + " mix=" + std::to_string(n_mix) +
           " data=" + std::to_string(n_data) + " skip=" + std::to_string(n_skip) + " zero=" + std::to_string(n_zero);
  }
};

struct Opt {
  int comp{-1};            // -1 any, else Comp
  int be{-1}, b64{-1}, a1{-1};
  size_t max_cols{12}, max_rows{60}, min_rows{0};
  size_t max_strlen{40};
  bool short_dates{true};  // date columns stored on less than 8 bytes
  bool high_bytes{true};   // non-ASCII bytes in names and labels
  bool ambiguous{true};    // compressed rows whose bytes look like a metadata signature
  bool odd_counts{true};   // declared row count differs from stored rows
  bool zero_pages{true};   // data-bearing pages that hold no row
  bool skip_pages{true};
  bool wide{false};        // many columns, several text blocks
  bool long_rows{false};
  bool huge_rows{false};       // columns of up to 32767 bytes, offsets beyond 65535
  bool plain_values{false}; // strings printable ASCII, dates in range: for text sinks and bindings
  bool unique_names{false};
  bool small_pages{false};  // squeeze as many pages as possible
  bool integral_ints{true};
  int force_kind{-1};      // 0 string 1 number 2 date 3 datetime 4 time 5 integer
  int fixed_rows{-1};
  bool rdc_pad{true};       // RDC streams are followed by 2 unused bytes (see the known finding of P03)
  bool no_fold_garbage{false};
  size_t cols_exact{0}, min_page{0}, exact_strlen{0};
  bool sparse_meta{false};  // metadata spread over many pages
  bool huge_counts{false};  // numbers of rows and pages that do not fit 16 or 32 bits are declared
  bool cut_zeros{true};    // RLE rows that leave out some of the zeros they end with
};

// ------------------------------------------------------------------ byte helpers
struct W {
  bool be;
  void put(std::string &b, size_t off, uint64_t v, size_t n) const {
    for (size_t k = 0; k < n; ++k) {
      size_t pos = be ? off + n - 1 - k : off + k;
      if (pos >= b.size()) throw std::logic_error("sasgen: written beyond the end");
      b[pos] = static_cast<char>((v >> (8 * k)) & 0xFF);
    }
  }
  void dbl(std::string &b, size_t off, double d) const {
    uint64_t v;
    std::memcpy(&v, &d, 8);
    put(b, off, v, 8);
  }
};
inline void text(std::string &b, size_t off, const std::string &s, size_t n, char pad) {
  for (size_t i = 0; i < n; ++i) b[off + i] = i < s.size() ? s[i] : pad;
}

// ------------------------------------------------------------------ format tables (the documented SAS format lists)
inline const std::vector<std::string> &datetime_formats() {
  static const std::vector<std::string> v{"DATETIME", "DTWKDATX", "B8601DN", "B8601DT", "B8601DX", "B8601DZ", "B8601LX",
      "E8601DN", "E8601DT", "E8601DX", "E8601DZ", "E8601LX", "DATEAMPM", "DTDATE", "DTMONYY", "DTYEAR", "TOD", "MDYAMPM"};
  return v;
}
inline const std::vector<std::string> &date_formats() {
  static const std::vector<std::string> v{"DATE", "DAY", "DDMMYY", "DOWNAME", "JULDAY", "JULIAN", "MMDDYY", "MMYY",
      "MMYYC", "MMYYD", "MMYYP", "MMYYS", "MMYYN", "MONNAME", "MONTH", "MONYY", "QTR", "QTRR", "NENGO", "WEEKDATE",
      "WEEKDATX", "WEEKDAY", "WEEKV", "WORDDATE", "WORDDATX", "YEAR", "YYMM", "YYMMC", "YYMMD", "YYMMP", "YYMMS",
      "YYMMN", "YYMON", "YYMMDD", "YYQ", "YYQC", "YYQD", "YYQP", "YYQS", "YYQN", "YYQR", "YYQRC", "YYQRD", "YYQRP",
      "YYQRS", "YYQRN", "YYMMDDP", "YYMMDDC", "E8601DA", "YYMMDDN", "MMDDYYC", "MMDDYYS", "MMDDYYD", "YYMMDDS",
      "B8601DA", "DDMMYYN", "YYMMDDD", "DDMMYYB", "DDMMYYP", "MMDDYYP", "YYMMDDB", "MMDDYYN", "DDMMYYC", "DDMMYYD",
      "DDMMYYS", "MINGUO"};
  return v;
}
inline const std::vector<std::string> &time_formats() {
  static const std::vector<std::string> v{"TIME"};
  return v;
}
inline const std::vector<std::string> &other_formats() {
  static const std::vector<std::string> v{"", "BEST", "$CHAR", "F", "COMMA", "DOLLAR", "PERCENT", "DATETIM", "DATES",
      "TIMES", "TIM", "date", "HHMM", "MMSS", "E", "Z", "$", "DATE9", "YYMMDDX", "TIMEAMPM", "ACCOUNTINGFORMATOFUPTO32LETTERSX", "$AFORMATWITHANAMETHATISLONGERTHAN32LETTERS", "DATE                                X"};
  return v;
}
template <class V> bool contains(const V &v, const std::string &s) { return std::find(v.begin(), v.end(), s) != v.end(); }

// ------------------------------------------------------------------ encoders
// Random RLE (SASYZCRL) encoding of a row.  style 0: random, 1: greedy longest run, 2: literals only.
inline std::string rle_encode(const std::string &row, Rng &r, int style, uint64_t &mask) {
  std::string o;
  size_t i = 0, n = row.size();
  auto B = [&](unsigned v) { o.push_back(static_cast<char>(v)); };
  auto lit = [&](size_t want) {
    // emit `want` literal bytes (1..4159) with one COPY command if possible
    std::vector<int> c;
    if (want >= 1 && want <= 16) c.push_back(8);
    if (want >= 17 && want <= 32) c.push_back(9);
    if (want >= 33 && want <= 48) c.push_back(10);
    if (want >= 49 && want <= 64) c.push_back(11);
    if (want >= 64) c.push_back(0);
    int k = r.pick(c);
    mask |= 1ull << k;
    if (k == 8) B(0x80 | (want - 1));
    else if (k == 9) B(0x90 | (want - 17));
    else if (k == 10) B(0xA0 | (want - 33));
    else if (k == 11) B(0xB0 | (want - 49));
    else { size_t m = want - 64; if (m >> 8) mask |= 1ull << 20; B((m >> 8) & 0x0F); B(m & 0xFF); }
    o.append(row, i, want);
    i += want;
  };
  while (i < n) {
    size_t run = 1;
    while (i + run < n && row[i + run] == row[i]) ++run;
    unsigned char c = static_cast<unsigned char>(row[i]);
    bool use_run = run >= 2 && style != 2 && (style == 1 || r.pct(85));
    if (use_run) {
      bool special = c == 0 || c == 0x20 || c == 0x40;
      size_t len = style == 1 ? run : (r.pct(60) ? run : r.range(2, run));
      struct Cand { int cmd; size_t n; };
      std::vector<Cand> cand;
      if (special) {
        int c17 = c == 0x40 ? 5 : c == 0x20 ? 6 : 7, c2 = c == 0x40 ? 13 : c == 0x20 ? 14 : 15;
        if (len >= 17) cand.push_back({c17, std::min<size_t>(len, 4112)});
        cand.push_back({c2, std::min<size_t>(len, 17)});
      }
      if (len >= 18) cand.push_back({4, std::min<size_t>(len, 513)});
      if (len >= 3) cand.push_back({12, std::min<size_t>(len, 18)});
      if (!cand.empty()) {
        Cand k = style == 1 ? *std::max_element(cand.begin(), cand.end(), [](auto &a, auto &b) { return a.n < b.n; })
                            : cand[r.below(cand.size())];
        mask |= 1ull << k.cmd;
        size_t m;
        switch (k.cmd) {
        case 4: m = k.n - 18; B(0x40 | (m >> 4 >> 4)); o.pop_back(); {
            // n = (low nibble << 4) + next + 18; choose a split
            size_t hi = std::min<size_t>(15, m / 16);
            if (m > 255) hi = std::max<size_t>(hi, (m - 255 + 15) / 16);
            size_t lo_min = m > 255 ? (m - 255 + 15) / 16 : 0;
            size_t h = r.range(lo_min, hi);
            if (m > 255) mask |= 1ull << 24;
            B(0x40 | h); B(m - h * 16); }
          B(c); break;
        case 5: case 6: case 7: m = k.n - 17; if (m >> 8) mask |= 1ull << (20 + k.cmd); B((k.cmd << 4) | (m >> 8)); B(m & 0xFF); break;
        case 12: B(0xC0 | (k.n - 3)); B(c); break;
        default: B((k.cmd << 4) | (k.n - 2));
        }
        i += k.n;
        continue;
      }
    }
    // literal stretch
    size_t want;
    size_t left = n - i;
    if (style == 1) {
      want = 1;
      while (want < left) {
        // stop before a run of 3 or more
        if (want + 2 < left && row[i + want] == row[i + want + 1] && row[i + want] == row[i + want + 2]) break;
        ++want;
      }
    } else want = r.pct(50) ? r.range(1, std::min<size_t>(left, 70)) : r.range(1, std::min<size_t>(left, 4159));
    lit(std::min<size_t>(want, 4159));
  }
  return o;
}

// Random RDC (SASYZCR2) encoding of a row.
inline std::string rdc_encode(const std::string &row, Rng &r, int style, uint64_t &mask, bool overlap = true) {
  std::string o;
  size_t i = 0, n = row.size();
  size_t ctrl_at = 0;
  int bit = 16;
  unsigned ctrl = 0;
  auto flush_ctrl = [&] {
    if (bit > 0 || ctrl_at || !o.empty()) {
      o[ctrl_at] = static_cast<char>(ctrl >> 8);
      o[ctrl_at + 1] = static_cast<char>(ctrl & 0xFF);
    }
  };
  auto item = [&](bool cmd) {
    if (bit == 16) {
      if (!o.empty()) flush_ctrl();
      ctrl_at = o.size();
      o.append(2, '\0');
      ctrl = 0;
      bit = 0;
    }
    if (cmd) ctrl |= 0x8000u >> bit;
    ++bit;
  };
  auto B = [&](unsigned v) { o.push_back(static_cast<char>(v)); };
  while (i < n) {
    size_t run = 1;
    while (i + run < n && row[i + run] == row[i]) ++run;
    // best pattern
    size_t best = 0, bofs = 0;
    if (i >= 3 && style != 2) {
      size_t tries = style == 1 ? std::min<size_t>(i, 4098) : 12;
      for (size_t t = 0; t < tries; ++t) {
        size_t ofs = style == 1 ? t + 1 : (r.pct(30) ? r.range(3, std::min<size_t>(i, 20)) : r.range(3, std::min<size_t>(i, 4098)));
        if (ofs < 3 || ofs > i || ofs > 4098) continue;
        size_t m = 0, lim = overlap ? 271 : std::min<size_t>(271, ofs);
        while (m < lim && i + m < n && row[i - ofs + m] == row[i + m]) ++m;
        if (m >= 3 && (m > best || (m == best && r.pct(50)))) { best = m; bofs = ofs; }
      }
    }
    int choice = 0; // literal
    std::vector<int> c;
    if (style == 2) c = {0};
    else {
      if (style == 0) c.push_back(0);
      if (run >= 3) { c.push_back(1); c.push_back(1); }
      if (best >= 3) { c.push_back(2); c.push_back(2); }
      if (c.empty()) c.push_back(0);
      if (style == 0 && run >= 3 && c[0] == 0 && r.pct(70)) c.erase(c.begin());
    }
    choice = r.pick(c);
    if (choice == 0) { item(false); B(static_cast<unsigned char>(row[i])); ++i; mask |= 1ull << 16; }
    else if (choice == 1) {
      size_t len = style == 1 || r.pct(60) ? run : r.range(3, run);
      item(true);
      if (len >= 19) {
        len = std::min<size_t>(len, 4114);
        size_t m = len - 19;
        B(0x10 | (m & 0x0F)); B(m >> 4); B(static_cast<unsigned char>(row[i]));
        if (m >> 11) mask |= 1ull << 21;
        mask |= 1ull << 1;
      } else {
        B(len - 3); B(static_cast<unsigned char>(row[i]));
        mask |= 1ull << 0;
      }
      i += len;
    } else {
      size_t len = style == 1 || r.pct(70) ? best : r.range(3, best);
      size_t m = bofs - 3;
      item(true);
      if (m >> 11) mask |= 1ull << (len >= 16 ? 22 : 23);
      if (len >= 16) { B(0x20 | (m & 0x0F)); B(m >> 4); B(len - 16); mask |= 1ull << 2; }
      else { B((len << 4) | (m & 0x0F)); B(m >> 4); mask |= 1ull << len; }
      if (bofs < len) mask |= 1ull << 17;
      i += len;
    }
  }
  if (!o.empty()) flush_ctrl();
  return o;
}

// What is left of an RDC row when decoding stops as soon as fewer than 3 bytes remain.
inline std::string rdc_without_tail(const std::string &in, size_t want) {
  std::string o;
  size_t i = 0;
  unsigned ctrl = 0, left = 0;
  auto byte = [&]() -> unsigned { return i < in.size() ? uint8_t(in[i++]) : 0u; };
  while (i + 3 <= in.size() && o.size() < want) {
    if (!left) { ctrl = byte() << 8; ctrl |= byte(); left = 16; }
    --left;
    if (!(ctrl >> left & 1)) { o.push_back(char(byte())); continue; }
    const unsigned c = byte(), cmd = c >> 4, lo = c & 15;
    if (cmd == 0) o.append(lo + 3, char(byte()));
    else if (cmd == 1) { const unsigned k = byte(); o.append(lo + k * 16 + 19, char(byte())); }
    else {
      const size_t ofs = lo + 3 + byte() * 16, n = cmd == 2 ? byte() + 16 : cmd;
      if (ofs > o.size()) break;
      for (size_t k = 0; k < n; ++k) o.push_back(o[o.size() - ofs]);
    }
  }
  o.resize(want, '\0');
  return o;
}

// ------------------------------------------------------------------ value generation
inline double missing_value(Rng &r) {
  // SAS missing: NaN with a tag in the payload; '.' is 0xFFFFFE0000000000
  uint64_t v = 0xFFFF000000000000ull | (uint64_t(~(r.pct(50) ? '.' : (r.pct(50) ? '_' : 'A' + int(r.below(26)))) & 0xFF) << 40) ;
  if (r.pct(50)) v = 0xFFFFFE0000000000ull;
  double d;
  std::memcpy(&d, &v, 8);
  return d;
}
constexpr double DAY0_1400 = -204531.0, DAY_9999 = 2936547 - 1; // 1400-01-01 .. 9999-12-31 in days since 1960-01-01 (inner bounds)

inline double gen_number(Rng &r, bool plain) {
  double d = 0;
  switch (r.below(plain ? 7 : 12)) {
  case 0: return double(int64_t(r.below(2001)) - 1000);
  case 1: return missing_value(r);
  case 2:
    if (r.pct(30)) return (std::ldexp(1.0, int(r.below(64))) + double(int(r.below(3)) - 1)) * (r.pct(50) ? 1 : -1); // around the powers of two
    if (r.pct(15)) return std::pow(10.0, double(r.below(24))) * (r.pct(50) ? 1 : -1);
    return double(int64_t(r.next() % 2000000000ull) - 1000000000);
  case 3: return (double(int64_t(r.below(2000001)) - 1000000)) / 1000.0;
  case 4: return 0.0;
  case 5: return double(r.next() >> 11) / 9007199254740992.0;
  case 6: return std::ldexp(double(r.next() >> 11), int(r.below(120)) - 60) * (r.pct(50) ? 1 : -1);
  case 7: return -0.0;
  case 8: return r.pct(50) ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
  case 9: { uint64_t v = r.next() & 0x800FFFFFFFFFFFFFull; std::memcpy(&d, &v, 8); return d; } // subnormal
  case 10: return r.pct(50) ? std::numeric_limits<double>::max() : std::numeric_limits<double>::denorm_min();
  default: { uint64_t v = r.next(); std::memcpy(&d, &v, 8); return d; }
  }
}
inline int64_t days_to(int64_t y, int m, int d) { // days from 1960-01-01 in the Gregorian calendar
  y -= m <= 2;
  const int64_t era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400;
  const int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468 + 3653;
}
// where calendars go wrong: ends of months and years, leap days, centuries, the epochs of other systems
inline double calendar_edge(Rng &r) {
  static const int epochs[][3] = {{1899, 12, 30}, {1900, 1, 1}, {1900, 2, 28}, {1900, 3, 1}, {1904, 1, 1}, {1960, 1, 1}, {1970, 1, 1}, {1980, 1, 6}, {1999, 12, 31}, {2000, 2, 29}, {2038, 1, 19}, {1752, 9, 14}, {1582, 10, 15}, {1858, 11, 17}, {2079, 6, 6}, {2262, 4, 11}, {1677, 9, 21}, {1901, 12, 13}, {2106, 2, 7}, {4096, 1, 1}};
  if (r.pct(35)) { const auto &e = epochs[r.below(sizeof epochs / sizeof *epochs)]; return double(days_to(e[0], e[1], e[2]) + int64_t(r.below(3)) - 1); }
  const int64_t y = r.pct(30) ? int64_t(r.range(15, 99)) * 100 : r.pct(60) ? int64_t(r.range(1880, 2120)) : int64_t(r.range(1402, 9998));
  return double(days_to(y, r.pct(40) ? 1 : r.pct(50) ? 3 : int(r.range(1, 12)), 1) + int64_t(r.below(3)) - 1);
}
inline double gen_date(Rng &r, bool plain) {
  if (!plain && r.pct(2)) return 1e15 * (r.pct(50) ? 1 : -1) * double(1 + r.below(1000));
  switch (r.below(10)) {
  case 0: return missing_value(r);
  case 1: return 0;
  case 8: case 9: return calendar_edge(r);
  case 2: return double(r.range(0, 30000));
  case 3: return -double(r.range(0, 130000));       // down to 1604
  case 4: return double(r.range(0, 2936000));       // up to 9998
  case 5: return -138061 + double(r.below(3));      // 1582-01-01
  case 6: return 2936547 - 1 - double(r.below(366)); // up to 9999-12-30
  default: return double(int64_t(r.below(60000)) - 20000);
  }
}
inline double off_calendar(Rng &r) {
  switch (r.below(6)) {
  case 0: return std::numeric_limits<double>::infinity();
  case 1: return -std::numeric_limits<double>::infinity();
  case 2: return 1e300;
  case 3: return -1e18;
  case 4: return 9.3e18;
  default: return 4e11 * (r.pct(50) ? 1 : -1) * double(1 + r.below(1000));
  }
}
// fractions of a second whose text or rounding is easily got wrong
inline double edge_fraction(Rng &r) {
  static const int us[] = {1, 2, 9, 10, 11, 99, 100, 999, 1000, 1001, 9999, 10000, 99999, 100000, 100001, 499999, 500000, 500001, 900000, 990000, 999000, 999900, 999990, 999999};
  return double(us[r.below(sizeof us / sizeof *us)]) / 1e6;
}
inline double gen_datetime(Rng &r, bool plain) {
  if (!plain && r.pct(3)) return off_calendar(r);
  double days = 0;
  do { days = gen_date(r, true); } while (std::isnan(days) && !r.pct(60));
  if (std::isnan(days)) return days;
  if (days > 2936545) days = 2936545;
  double s = days * 86400.0;
  switch (r.below(12)) {
  case 0: return s;
  case 9: return s + double(int(r.below(3)) - 1);
  case 10: return s + double(int(r.below(3)) - 1) / (r.pct(50) ? 1000.0 : 1000000.0);
  case 1: return s + double(r.below(86400));
  case 2: return s + double(r.below(86400)) + double(r.below(1000)) / 1000.0;
  case 3: return s + double(r.below(86400)) + double(r.below(1000000)) / 1000000.0;
  case 4: return s + 86399.0 + 0.999999 * double(r.below(2));
  case 5: return s + 43200.0 + double(int(r.below(3)) - 1);
  case 6: return s + 43199.5 + double(r.below(100)) / 100.0;
  case 7: return s + double(r.below(86400)) + 0.5;
  case 8: return s + double(r.below(86400)) + edge_fraction(r);
  default: return s + double(r.below(864000000)) / 10000.0;
  }
}
inline double gen_time(Rng &r, bool plain) {
  switch (r.below(9)) {
  case 0: return missing_value(r);
  case 1: return 0;
  case 8: return double(r.pct(20) ? 0 : r.below(86400)) + edge_fraction(r);
  case 2: return 86399;
  case 3: return 86399.999999;
  case 4: return double(r.below(86400)) + double(r.below(1000000)) / 1000000.0;
  case 5: return 43200.0 + double(int(r.below(3)) - 1) * 0.5;
  case 6: if (!plain && r.pct(40)) return double(int64_t(r.below(2000000)) - 1000000) + double(r.below(1000)) / 1000.0; [[fallthrough]];
  default: return double(r.below(86400));
  }
}
inline std::string reserved_word(Rng &r) {
  static const char *const w[] = {"NA", "NaN", "NULL", "None", "nan", "null", "TRUE", "FALSE", "T", "inf", "Inf", "-inf", "0", "-0", "1", "-", ".", "nil", "N/A", "True", "#N/A", "not-a-date-time", "''", "\"\"", "1e5", "=1+1", "A2Z", "\\N", "{}", "%s"};
  return w[r.below(sizeof w / sizeof *w)];
}
inline std::string gen_string(Rng &r, size_t len, bool plain) {
  std::string s(len, ' ');
  int style = int(r.below(plain ? 4 : 11));
  size_t n = style == 0 ? 0 : r.pct(30) ? len : r.below(len + 1);
  static const char ws[] = {' ', '\t', '\n', '\v', '\f', '\r', '\0'};
  if (style == 9) // long runs
    for (size_t i = 0; i < n;) {
      const char b = r.pct(75) ? "@ \0x"[r.below(4)] : char(r.below(256));
      const size_t k = r.pct(50) ? n - i : r.range(1, n - i);
      std::fill(s.begin() + long(i), s.begin() + long(i + k), b);
      i += k;
      if (i < n && r.pct(50)) s[i++] = char(r.below(256));
    }
  if (style == 10) { // one word again and again
    const size_t p = r.range(1, std::min<size_t>(r.pct(70) ? 24 : 4000, std::max<size_t>(n, 1)));
    for (size_t i = 0; i < n; ++i) s[i] = i >= p && !r.pct(1) ? s[i - p] : char(r.below(256));
  }
  for (size_t i = 0; i < n && style < 9; ++i) {
    switch (style) {
    case 1: s[i] = char('a' + r.below(26)); break;
    case 2: s[i] = char(0x21 + r.below(0x5E)); break;
    case 3: s[i] = r.pct(25) ? ' ' : char('A' + r.below(26)); break;
    case 4: s[i] = char(r.below(256)); break;
    case 5: s[i] = r.pct(40) ? ws[r.below(7)] : char('a' + r.below(26)); break;
    case 6: s[i] = char(0x80 + r.below(128)); break;
    case 7: s[i] = r.pct(85) ? s[i ? i - 1 : 0] : (r.pct(50) ? '@' : char(r.below(256))); break;
    default: s[i] = "@ \0Zz9"[r.below(6)];
    }
  }
  char pad = plain || r.pct(60) ? ' ' : ws[r.below(7)];
  for (size_t i = n; i < len; ++i) s[i] = pad;
  if (!plain && len && r.pct(15)) for (size_t i = len - std::min<size_t>(len, r.below(6)); i < len; ++i) s[i] = ws[r.below(7)];
  if (style == 8 && r.pct(50)) std::fill(s.begin(), s.end(), char(r.pct(50) ? 0 : ' '));
  if (r.pct(8)) { // words that mean something elsewhere
    const std::string w = reserved_word(r);
    if (w.size() <= len) { s.assign(len, ' '); s.replace(0, w.size(), w); }
  }
  return s;
}

inline std::string gen_name(Rng &r, size_t maxlen, bool high, bool label) {
  size_t n = r.range(label ? 0 : 1, maxlen);
  std::string s;
  if (r.pct(4)) {
    static const char *const w[] = {"NA", "row.names", "names", "check.names", "stringsAsFactors", "optional", "c", "T", "if", "function", "NULL", "class", "None", "_cpp", "df", "self", "columns", "rows", "index", "x", "...", "__class__", "nan", "data", "0", "name", "V1", "X"};
    const std::string x = w[r.below(sizeof w / sizeof *w)];
    if (x.size() <= maxlen) return x;
  }
  for (size_t i = 0; i < n; ++i) {
    unsigned k = unsigned(r.below(100));
    if (high && k < 12) s.push_back(char(0x80 + r.below(128)));
    else if (label && k < 25) s.push_back(' ');
    else if (k < 32 && (label || r.pct(40))) s.push_back("{}%\\\"',;:%s$#&<>"[r.below(16)]);
    else if (k < 45) s.push_back(char('0' + r.below(10)));
    else s.push_back(char((r.pct(50) ? 'A' : 'a') + r.below(26)));
  }
  // surrounding blanks are not part of the value
  while (!s.empty() && s.back() == ' ') s.pop_back();
  while (!s.empty() && s.front() == ' ') s.erase(s.begin());
  if (s.find("SASYZC") != s.npos) s = "N";
  if (!label && s.empty()) s = "x";
  return s;
}

// raw bytes of a numeric stored on len bytes: the len most significant bytes of the double
inline void put_numeric(std::string &row, const Col &c, double d, bool be) {
  uint64_t v;
  std::memcpy(&v, &d, 8);
  for (uint32_t k = 0; k < c.len; ++k) {
    uint8_t byte = uint8_t(v >> (56 - 8 * k)); // k-th most significant byte
    size_t pos = be ? c.off + k : c.off + c.len - 1 - k;
    row[pos] = char(byte);
  }
}

enum Kind { K_UNKNOWN, K_STRING, K_NUMBER, K_INTEGER, K_DATETIME, K_DATE, K_TIME };
inline Kind kind_of(const Col &c) {
  if (!c.numeric) return K_STRING;
  if (c.len == 1 || c.len == 2) return K_INTEGER;
  if (contains(datetime_formats(), c.format)) return K_DATETIME;
  if (contains(date_formats(), c.format)) return K_DATE;
  if (contains(time_formats(), c.format)) return K_TIME;
  if (c.len >= 3 && c.len <= 8) return K_NUMBER;
  return K_UNKNOWN;
}

// ------------------------------------------------------------------ metadata subheaders
struct Sub { std::string body; uint8_t comp{0}, type{0}; int row{-1}; bool hole{false}; };

struct Builder {
  Model &m;
  Rng &r;
  const Opt &o;
  W w;
  std::vector<Sub> subs;
  std::vector<std::string> blocks; // text blocks (content from the length field on)
  Builder(Model &mm, Rng &rr, const Opt &oo) : m(mm), r(rr), o(oo), w{mm.be} {}

  void sig(std::string &b, uint32_t low) { // signature whose low 32 bits are `low`, sign-extended for the FFFFxxxx ones
    size_t i = m.isz();
    uint64_t v = low;
    if (i == 8 && (low >> 31) && low != 0xF7F7F7F7u && low != 0xF6F6F6F6u) v |= 0xFFFFFFFF00000000ull;
    w.put(b, 0, v, i);
  }
  std::string filler(size_t n) {
    std::string s(n, '\0');
    if (!o.no_fold_garbage && r.pct(50)) for (auto &c : s) c = char(r.below(256));
    return s;
  }
};

inline void build(Model &m, Rng &r, const Opt &o, bool rows_given);

inline Model generate(uint64_t seed, const Opt &given) {
  Rng r(seed);
  Opt o = given;
  if (o.fixed_rows > 300 || o.max_rows > 100 || o.cols_exact > 100 || o.max_cols > 100) o.long_rows = false;
  Model m;
  m.be = o.be < 0 ? r.pct(50) : o.be;
  m.b64 = o.b64 < 0 ? r.pct(50) : o.b64;
  m.a1 = o.a1 < 0 ? r.pct(50) : o.a1;
  m.comp = o.comp < 0 ? Comp(r.below(3)) : Comp(o.comp);
  m.platform = "12x"[r.below(3)];
  m.enc = uint8_t(r.below(256));
  auto id = [&](size_t n) { return r.pct(10) ? std::string() : gen_name(r, n, false, false); };
  m.dataset_name = gen_name(r, r.pct(20) ? 64 : 32, o.high_bytes && r.pct(30), false);
  m.file_type = r.pct(80) ? "DATA" : id(8);
  m.release = r.pct(50) ? "9.0401M6" : id(8);
  m.server = id(16);
  m.os_type = id(16);
  m.os_name1 = id(16);
  m.os_name2 = r.pct(40) ? std::string() : id(16);
  m.created = gen_datetime(r, true);
  m.modified = gen_datetime(r, true);
  // columns
  size_t ncols = 1 + r.below(o.max_cols);
  if (o.wide) ncols = 200 + r.below(1200);
  if (o.cols_exact) ncols = o.cols_exact;
  std::vector<std::string> used;
  for (size_t i = 0; i < ncols; ++i) {
    Col c;
    c.name = o.wide ? gen_name(r, 20, o.high_bytes, false) : gen_name(r, r.pct(10) ? 32 : 10, o.high_bytes, false);
    if (r.pct(1)) c.name = gen_name(r, r.pct(80) ? 80 : 300, o.high_bytes, false); // longer than any writer writes
    if (o.unique_names) { c.name += "_" + std::to_string(i); }
    c.label = r.pct(30) ? std::string() : gen_name(r, o.wide ? 30 : (r.pct(5) ? 256 : 30), o.high_bytes, true);
    int k = o.force_kind >= 0 ? o.force_kind : int(r.below(6));
    if (o.force_kind < 0 && k == 5 && r.pct(60)) k = 1;
    switch (k) {
    case 0: c.numeric = false; c.format = r.pct(50) ? "$" : r.pick(other_formats());
      if (r.pct(5)) c.format = r.pick(date_formats());
      c.len = uint32_t(r.pct(3) ? (o.long_rows ? r.range(1000, 9000) : r.range(200, 600)) : r.range(1, o.max_strlen));
      if (o.long_rows && r.pct(30)) c.len = uint32_t(r.range(500, 6000));
      if (o.exact_strlen) c.len = uint32_t(o.exact_strlen);
      if (o.huge_rows && r.pct(60)) c.len = uint32_t(r.pct(20) ? 32767 : r.range(15000, 32767));
      break;
    case 1: c.len = uint32_t(r.pct(60) ? 8 : r.range(3, 8)); c.format = r.pick(other_formats()); break;
    case 2: c.format = r.pick(date_formats()); c.len = uint32_t(o.short_dates && r.pct(30) ? r.range(4, 8) : 8); break;
    case 3: c.format = r.pick(datetime_formats()); c.len = uint32_t(o.short_dates && r.pct(15) ? r.range(6, 8) : 8); break;
    case 4: c.format = "TIME"; c.len = uint32_t(o.short_dates && r.pct(30) ? r.range(4, 8) : 8); break;
    default: c.len = uint32_t(r.range(1, 2)); c.format = r.pct(30) ? r.pick(date_formats()) : r.pick(other_formats());
    }
    m.cols.push_back(c);
  }
  // offsets: shuffled, with gaps now and then
  std::vector<size_t> ord(ncols);
  for (size_t i = 0; i < ncols; ++i) ord[i] = i;
  if (r.pct(60)) for (size_t i = ncols; i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
  uint64_t off = 0;
  bool gaps = r.pct(30);
  for (size_t i : ord) {
    if (gaps) off += r.below(5);
    m.cols[i].off = off;
    off += m.cols[i].len;
  }
  if (r.pct(40)) off += r.below(8);
  m.row_length = std::max<uint64_t>(off, 1);
  // rows
  size_t nrows = o.fixed_rows >= 0 ? size_t(o.fixed_rows) : o.min_rows + r.below(o.max_rows - o.min_rows + 1);
  if (o.fixed_rows < 0 && o.min_rows == 0 && r.pct(4)) nrows = 0;
  int rowstyle = int(r.below(3));
  for (size_t i = 0; i < nrows; ++i) {
    std::string row(m.row_length, '\0');
    if (gaps && rowstyle == 1) for (auto &c : row) c = char(r.below(256));
    if (i && rowstyle == 2 && r.pct(50)) row = m.rows[r.below(i)];
    for (auto &c : m.cols) {
      if (i && rowstyle == 2 && r.pct(50)) continue;
      if (!c.numeric) { std::string s = gen_string(r, c.len, o.plain_values); row.replace(c.off, c.len, s); }
      else switch (kind_of(c)) {
        case K_INTEGER: {
          static const unsigned char edge[] = {0x00, 0x01, 0x7F, 0x80, 0xFF};
          const bool e = r.pct(25);
          for (uint32_t k = 0; k < c.len; ++k) row[c.off + k] = char(e ? edge[r.below(5)] : r.below(256));
          break;
        }
        case K_DATE: put_numeric(row, c, gen_date(r, o.plain_values), m.be); break;
        case K_DATETIME: put_numeric(row, c, gen_datetime(r, o.plain_values), m.be); break;
        case K_TIME: put_numeric(row, c, gen_time(r, o.plain_values), m.be); break;
        default: put_numeric(row, c, gen_number(r, o.plain_values), m.be);
      }
    }
    m.rows.push_back(std::move(row));
  }
  build(m, r, o, true);
  return m;
}

// Lay the dataset out on pages.
inline void build(Model &m, Rng &r, const Opt &o, bool) {
  Builder b(m, r, o);
  const size_t I = m.isz();
  W w{m.be};
  const size_t nc = m.cols.size();
  // --- text blocks: pool the strings, several blocks now and then
  struct Ref { uint16_t idx, off, len; };
  std::vector<Ref> rn(nc), rl(nc), rf(nc);
  // first block starts with: length(2) zeros(10) literal(8) ... creator texts
  size_t block_cap = o.wide ? r.range(3000, 32000) : (r.pct(25) ? r.range(160, 400) : r.range(400, 32000));
  if (o.wide && r.pct(50)) block_cap = r.pct(60) ? r.range(90, 250) : r.range(33000, 62000); // hundreds of blocks, or offsets beyond 32767
  else if (!o.wide && r.pct(10)) block_cap = r.range(80, 130);                                // a block for almost every text
  if (nc > 2000) block_cap = r.range(1000, 4000); // the reader copies a block for each text
  m.creator_mode = m.comp == NONE ? int(r.below(3)) : m.comp == RLE ? (r.pct(70) ? 0 : 2) : 2;
  if (m.creator_mode == 0) { m.creator_proc = gen_name(r, 16, false, false); m.lcp = m.creator_proc.size(); m.lcs = m.comp == NONE ? r.below(9) : 0; }
  else if (m.creator_mode == 1) {
    do m.creator = gen_name(r, 12, false, false); while (m.creator.size() < 1);
    m.lcs = m.creator.size(); m.lcp = r.below(9);
  }
  auto new_block = [&] {
    std::string t(2, '\0');
    if (b.blocks.empty()) {
      t.append(10, '\0');
      std::string head(8 + 16 + 8 + 16 + 12, ' ');
      if (m.comp == RLE) head.replace(0, 8, "SASYZCRL");
      if (m.comp == RDC) head.replace(0, 8, "SASYZCR2");
      if (m.creator_mode == 0) head.replace(m.comp == RLE ? 24 : 16, m.creator_proc.size(), m.creator_proc);
      if (m.creator_mode == 1) head.replace(0, m.creator.size(), m.creator);
      t += head;
    } else t.append(r.below(12), '\0');
    b.blocks.push_back(t);
  };
  new_block();
  auto add = [&](const std::string &s) -> Ref {
    if (s.empty() && r.pct(70)) return {0, 0, 0};
    if (!s.empty() && r.pct(15)) { // share an identical piece
      for (size_t k = nc > 2000 && b.blocks.size() > 2 ? b.blocks.size() - 2 : 0; k < b.blocks.size(); ++k) {
        size_t p = b.blocks[k].find(s, k ? 2 : 72);
        if (p != std::string::npos) return {uint16_t(k), uint16_t(p), uint16_t(s.size())};
      }
    }
    size_t padl = r.pct(10) ? r.below(4) : 0, padr = r.pct(25) ? r.below(5) : 0;
    if (b.blocks.back().size() + s.size() + padl + padr + 8 > block_cap) new_block();
    auto &t = b.blocks.back();
    Ref x{uint16_t(b.blocks.size() - 1), uint16_t(t.size()), uint16_t(s.size() + padl + padr)};
    t += std::string(padl, ' ') + s + std::string(padr, r.pct(50) ? ' ' : '\0');
    if (s.empty()) { x.len = uint16_t(padr + padl); }
    while (t.size() % 4) t.push_back('\0');
    return x;
  };
  {
    std::vector<size_t> ord(nc);
    for (size_t i = 0; i < nc; ++i) ord[i] = i;
    bool grouped = r.pct(50);
    if (grouped) {
      for (size_t i = 0; i < nc; ++i) rn[i] = add(m.cols[i].name);
      for (size_t i = 0; i < nc; ++i) rf[i] = add(m.cols[i].format);
      for (size_t i = 0; i < nc; ++i) rl[i] = add(m.cols[i].label);
    } else for (size_t i = 0; i < nc; ++i) { rn[i] = add(m.cols[i].name); rf[i] = add(m.cols[i].format); rl[i] = add(m.cols[i].label); }
  }
  m.n_text = uint32_t(b.blocks.size());

  // --- page geometry
  const size_t po = m.po();
  size_t need = 0;
  size_t fmt_len = 3 * I + (I == 8 ? 40 : 40);
  size_t rs_len = (I == 8 ? 808 : 480);
  need = std::max(rs_len, fmt_len) + 200;
  for (auto &t : b.blocks) need = std::max(need, t.size() + I + 100);
  need = std::max<size_t>(need, m.row_length + 200);
  need += po + 8 + 10 * 3 * I;
  need = std::max(need, o.min_page);
  static const std::vector<uint32_t> std_pl{1024, 2048, 4096, 8192, 16384, 32768, 65536};
  if (o.small_pages) m.page_length = uint32_t((need + 7) / 8 * 8);
  else if (r.pct(70)) {
    std::vector<uint32_t> ok;
    for (auto p : std_pl) if (p >= need) ok.push_back(p);
    if (ok.empty()) ok.push_back(uint32_t((need + 1023) / 1024 * 1024));
    m.page_length = r.pct(70) ? ok[0] : ok[r.below(std::min<size_t>(ok.size(), 3))];
  } else m.page_length = uint32_t(need + r.below(600));
  static const std::vector<uint32_t> std_hl{1024, 8192, 4096, 2048, 65536};
  m.header_length = r.pct(80) ? std_hl[r.below(std_hl.size())] : uint32_t(288 + m.ta() + r.below(900));
  const size_t PL = m.page_length;

  // --- subheaders
  auto push = [&](std::string body, uint8_t type = 0) { b.subs.push_back({std::move(body), 0, type, -1, false}); };
  bool odd = o.odd_counts;
  int rc_mode = 0; // 0 equal, 1 declared bigger than stored, 2 declared smaller than stored
  if (odd && o.fixed_rows < 0) { unsigned k = unsigned(r.below(100)); rc_mode = k < 80 ? 0 : k < 90 ? 1 : 2; }
  size_t stored = m.rows.size();
  m.row_count = rc_mode == 1 ? stored + 1 + r.below(1000) : rc_mode == 2 ? r.below(stored + 1) : stored;
  if (o.huge_counts) m.row_count = r.pct(50) ? r.range(65536, 0xFFFFFFFFull) : I == 8 ? r.next() >> r.range(2, 32) : r.range(0x7FFFFFF0ull, 0xFFFFFFFFull);
  m.row_count = std::max<uint64_t>(m.row_count, rc_mode == 2 ? 0 : stored);
  m.p1 = r.pct(80) ? nc : r.below(nc + 1);
  m.p2 = nc - m.p1;
  auto rowsize = [&](uint64_t mixcnt) {
    std::string s = b.filler(rs_len);
    b.sig(s, 0xF7F7F7F7u);
    w.put(s, 5 * I, m.row_length, I);
    w.put(s, 6 * I, m.row_count, I);
    w.put(s, 9 * I, m.p1, I);
    w.put(s, 10 * I, m.p2, I);
    w.put(s, 15 * I, mixcnt, I);
    w.put(s, I == 8 ? 682 : 354, m.lcs, 2);
    w.put(s, I == 8 ? 706 : 378, m.lcp, 2);
    return s;
  };
  push(rowsize(0));
  { std::string s = b.filler(I == 8 ? 24 : 12); b.sig(s, 0xF6F6F6F6u); w.put(s, I, nc, I); push(s); }
  { std::string s = b.filler(I == 8 ? 600 : 304); b.sig(s, 0xFFFFFC00u); if (r.pct(85)) push(s); }
  for (auto &t : b.blocks) {
    while (t.size() % 4) t.push_back('\0');
    std::string tt = t;
    W{m.be}.put(tt, 0, tt.size(), 2);
    std::string s(I, '\0');
    b.sig(s, 0xFFFFFFFDu);
    s += tt;
    s += b.filler(r.below(3) * 4 + (I == 8 ? 4 : 0));
    push(s);
  }
  // names, possibly split
  auto split = [&](size_t cap) { // number of entries per subheader
    std::vector<size_t> v;
    size_t left = nc;
    while (left) { size_t k = std::min<size_t>(left, r.pct(70) ? cap : r.range(1, cap)); v.push_back(k); left -= k; }
    return v;
  };
  size_t c0 = 0;
  for (size_t k : split(std::max<size_t>(1, std::min<size_t>(std::min<size_t>((PL - po - 8 - 3 * I - 2 * I - 40), 65000) / 8, r.pct(80) ? 100000 : 3)))) {
    std::string s = b.filler(2 * I + 12 + 8 * k + r.below(8) / 4 * 4);
    b.sig(s, 0xFFFFFFFFu);
    w.put(s, I, s.size() - I, 2);
    for (size_t j = 0; j < k; ++j) {
      size_t e = I + 8 + 8 * j;
      w.put(s, e, rn[c0 + j].idx, 2);
      w.put(s, e + 2, rn[c0 + j].off, 2);
      w.put(s, e + 4, rn[c0 + j].len, 2);
    }
    c0 += k;
    ++m.n_name;
    push(s);
  }
  c0 = 0;
  for (size_t k : split(std::max<size_t>(1, std::min<size_t>(std::min<size_t>((PL - po - 8 - 3 * I - 2 * I - 40), 65000) / (I + 8), r.pct(80) ? 100000 : 3)))) {
    std::string s = b.filler(2 * I + 12 + (I + 8) * k + r.below(8) / 4 * 4);
    b.sig(s, 0xFFFFFFFCu);
    w.put(s, I, s.size() - I, 2);
    for (size_t j = 0; j < k; ++j) {
      size_t e = I + 8 + (I + 8) * j;
      const Col &c = m.cols[c0 + j];
      w.put(s, e, c.off, I);
      w.put(s, e + I, c.len, 4);
      s[e + I + 6] = char(c.numeric ? 1 : 2);
    }
    c0 += k;
    ++m.n_attr;
    push(s);
  }
  for (size_t j = 0; j < nc; ++j) {
    std::string s = b.filler(fmt_len);
    b.sig(s, 0xFFFFFBFEu);
    size_t f = 3 * I;
    w.put(s, f + 22, rf[j].idx, 2); w.put(s, f + 24, rf[j].off, 2); w.put(s, f + 26, rf[j].len, 2);
    w.put(s, f + 28, rl[j].idx, 2); w.put(s, f + 30, rl[j].off, 2); w.put(s, f + 32, rl[j].len, 2);
    push(s);
  }
  if (r.pct(60)) { std::string s = b.filler(I + 24 + 2 * nc); b.sig(s, 0xFFFFFFFEu); if (s.size() + po + 8 + 6 * I < PL) push(s); }
  // 64-bit writers may use the wide form of the signatures in the other half (F7F7F7F7 in the high word)
  if (I == 8 && r.pct(20)) for (size_t k = 0; k < 2; ++k) { w.put(b.subs[k].body, 0, uint64_t(k ? 0xF6F6F6F6u : 0xF7F7F7F7u) << 32, 8); }
  // shuffle the order of the subheaders that may come in any order (labels keep column order)
  // holes: truncated pointers and empty pointers that must be skipped
  {
    std::vector<Sub> v;
    for (auto &s : b.subs) {
      if (r.pct(6)) { Sub h; h.hole = true; h.comp = r.pct(50) ? 1 : 0; h.type = uint8_t(r.below(2)); if (h.comp == 1 && r.pct(50)) h.body = b.filler(16); v.push_back(h); }
      v.push_back(s);
    }
    b.subs.swap(v);
  }

  // --- compressed rows
  std::vector<Sub> drows;
  if (m.comp != NONE) {
    for (size_t i = 0; i < stored; ++i) {
      const std::string &row = m.rows[i];
      Sub s;
      s.row = int(i);
      s.type = 1;
      uint64_t mask = 0;
      int style = int(r.below(4)); if (style == 3) style = 1;
      std::string shown = row;
      if (m.comp == RLE && o.cut_zeros && r.pct(25)) { // what a compressed row does not reach is zero
        size_t z = 0;
        while (z + 1 < row.size() && row[row.size() - 1 - z] == 0) ++z;
        if (z) { shown.resize(row.size() - (r.pct(40) ? 1 : r.range(1, z))); ++m.n_short; }
      }
      std::string e = m.comp == RLE ? rle_encode(shown, r, style, mask) : rdc_encode(row, r, style, mask, true);
      if (m.comp == RDC && o.rdc_pad) { e.push_back(char(r.below(256))); e.push_back(char(r.below(256))); }
      bool raw = e.size() >= row.size() || r.pct(8);
      auto looks_meta = [&](const std::string &x) {
        if (x.size() < I) return true;
        uint64_t v = 0;
        for (size_t k = 0; k < I; ++k) v |= uint64_t(uint8_t(x[m.be ? I - 1 - k : k])) << (8 * k);
        uint32_t lo = uint32_t(v), hi = uint32_t(v >> 32);
        static const uint32_t S[] = {0xF7F7F7F7u, 0xF6F6F6F6u, 0xFFFFFC00u, 0xFFFFFFFDu, 0xFFFFFFFFu, 0xFFFFFFFCu, 0xFFFFFBFEu, 0xFFFFFFFEu};
        for (auto q : S) { if (lo == q && (I == 4 || hi == 0xFFFFFFFFu || hi == 0)) return true; if (I == 8 && hi == q && lo == 0) return true;
          // the other byte order of the same signature
          uint32_t q2 = __builtin_bswap32(q); if (lo == q2 || (I == 8 && hi == q2)) return true; }
        return false;
      };
      if (raw) { s.body = row; s.comp = r.pct(50) ? 4 : 0; if (s.comp == 0 && looks_meta(row)) s.comp = 4; ++m.n_raw; }
      else { s.body = e; s.comp = 4; ++m.n_packed; m.cmd_mask |= mask; }
      if (!o.ambiguous && looks_meta(s.body)) {
        // drop the ambiguity by re-encoding with literals only, else store raw in a way that cannot clash
        s.body = row; s.comp = 4; ++m.n_raw; --m.n_packed;
        if (looks_meta(row)) { m.rows[i][0] = 'q'; s.body = m.rows[i]; }
      }
      if (m.comp == RDC) {
        std::string l = s.body.size() < m.rows[i].size() ? rdc_without_tail(s.body, m.row_length) : m.rows[i];
        if (l != m.rows[i]) { if (m.lossy.empty()) m.lossy = m.rows; m.lossy[i] = l; }
      }
      drows.push_back(std::move(s));
    }
  }

  // --- pages
  std::vector<std::string> pages;
  m.row_page.assign(stored, 0);
  auto blank = [&](uint16_t type, uint16_t blocks, uint16_t nsub) {
    std::string p(PL, '\0');
    if (!o.no_fold_garbage && r.pct(40)) for (auto &c : p) c = char(r.below(256));
    w.put(p, po, type, 2); w.put(p, po + 2, blocks, 2); w.put(p, po + 4, nsub, 2);
    return p;
  };
  size_t rowsize_page = 0, rowsize_off = 0;
  bool have_rowsize = false;
  // writes subs [i..j) on a fresh page of the given type
  auto sub_page = [&](const std::vector<Sub> &v, size_t i, size_t j, uint16_t type, size_t extra_blocks) {
    std::string p = blank(type, uint16_t(j - i + extra_blocks), uint16_t(j - i));
    size_t end = PL;
    for (size_t k = i; k < j; ++k) {
      const Sub &s = v[k];
      size_t q = po + 8 + (k - i) * 3 * I;
      size_t at = 0;
      if (!s.body.empty()) { if (end < po + 8 + (j - i) * 3 * I + s.body.size()) throw std::logic_error("sasgen: page overflow"); end -= s.body.size(); at = end; p.replace(at, s.body.size(), s.body); }
      w.put(p, q, at, I);
      w.put(p, q + I, s.body.size(), I);
      for (size_t z = 2 * I; z < 3 * I; ++z) p[q + z] = 0;
      p[q + 2 * I] = char(s.comp);
      p[q + 2 * I + 1] = char(s.type);
      m.meta_offsets.push_back(pages.size() * PL + q);
      if (!s.body.empty()) m.meta_offsets.push_back(pages.size() * PL + at);
      if (s.row >= 0) m.row_page[size_t(s.row)] = uint32_t(pages.size());
      if (!have_rowsize && s.row < 0 && !s.hole) { have_rowsize = true; rowsize_page = pages.size(); rowsize_off = at; }
    }
    return p;
  };
  auto fit = [&](const std::vector<Sub> &v, size_t i, size_t reserve) {
    size_t used = po + 8 + reserve, j = i;
    while (j < v.size() && j - i < 65000 && used + 3 * I + v[j].body.size() <= PL) { used += 3 * I + v[j].body.size(); ++j; }
    return j;
  };
  auto skip_page = [&] {
    static const uint16_t types[] = {1024, 16384, 0x8000, 0x9000, 4, 2048};
    unsigned k = unsigned(r.below(7));
    ++m.n_skip;
    if (k == 6) { // meta page without data subheaders
      std::vector<Sub> v;
      Sub h; h.hole = true; h.comp = 1; h.type = 1; v.push_back(h);
      Sub c; c.body = b.filler(64); b.sig(c.body, 0xFFFFFFFEu); c.comp = 0; c.type = 0; v.push_back(c);
      const bool had = have_rowsize;
      have_rowsize = true; // what such a page holds is not the row-size subheader
      pages.push_back(sub_page(v, 0, r.below(3), 0, 0));
      have_rowsize = had;
    } else pages.push_back(blank(types[k], uint16_t(r.below(5)), uint16_t(k == 0 ? 0 : r.below(3))));
  };
  auto maybe_skip = [&](unsigned p) { if (o.skip_pages && r.pct(p)) skip_page(); };
  have_rowsize = false;
  size_t si = 0;
  bool use_mix = m.comp == NONE && r.pct(65) && stored > 0;
  const std::vector<Sub> &S = b.subs;
  // when splitting metadata over pages randomly end pages early
  size_t mixcnt = r.pct(50) ? 0 : o.huge_counts ? r.below(I == 8 ? 1ull << 40 : 1ull << 32) : r.below(50);
  size_t ri = 0;
  while (si < S.size()) {
    size_t j = fit(S, si, 0);
    if (j == si) throw std::logic_error("sasgen: subheader does not fit");
    if (j > si + 1 && r.pct(o.sparse_meta ? 60 : 8)) j = si + 1 + r.below(j - si);
    bool last = j == S.size();
    uint16_t mt = (pages.empty() || r.pct(80)) ? 0 : 1024;
    if (last && m.comp == NONE && use_mix) {
      // mix page: rows after the pointers
      size_t nsub = j - si, body = 0;
      for (size_t k = si; k < j; ++k) body += S[k].body.size();
      size_t roff = po + 8 + nsub * 3 * I;
      roff += roff % 8;
      size_t cap = roff + body <= PL ? (PL - body - roff) / m.row_length : 0;
      cap = std::min<size_t>(cap, 65535 - nsub);
      if (cap == 0 && !r.pct(40)) { // no room: finish as meta
        pages.push_back(sub_page(S, si, j, mt, 0)); ++m.n_meta_pages; si = j; continue;
      }
      size_t k = r.pct(70) ? cap : r.below(cap + 1);
      if (k > stored) k = stored;
      if (k == 0 && !o.zero_pages) { pages.push_back(sub_page(S, si, j, mt, 0)); ++m.n_meta_pages; si = j; continue; }
      mixcnt = k == stored && k >= m.row_count && r.pct(50) ? k + r.below(100) : k;
      std::string p = sub_page(S, si, j, r.pct(50) ? 512 : 640, k);
      for (size_t z = 0; z < k; ++z) { p.replace(roff + z * m.row_length, m.row_length, m.rows[ri]); m.row_page[ri++] = uint32_t(pages.size()); }
      if (k == 0) ++m.n_zero;
      pages.push_back(p);
      ++m.n_mix;
      si = j;
      break;
    }
    if (last && m.comp != NONE && !drows.empty() && r.pct(70)) {
      // metadata followed by compressed rows on the same page
      std::vector<Sub> v(S.begin() + long(si), S.end());
      size_t nmeta = v.size();
      v.insert(v.end(), drows.begin(), drows.end());
      size_t k = fit(v, 0, 3 * I);
      const bool room = k >= nmeta; // for one more pointer
      if (!room) k = nmeta;
      if (r.pct(20) && k > nmeta) k = nmeta + r.below(k - nmeta + 1);
      bool trunc = room && r.pct(50);
      std::vector<Sub> v2(v.begin(), v.begin() + long(k));
      if (trunc) { Sub h; h.hole = true; h.comp = 1; h.type = r.pct(50) ? 1 : 0; v2.push_back(h); }
      pages.push_back(sub_page(v2, 0, v2.size(), mt == 1024 ? 0 : mt, 0));
      ++m.n_meta_pages;
      ri = k - nmeta;
      si = j;
      break;
    }
    pages.push_back(sub_page(S, si, j, mt, 0));
    ++m.n_meta_pages;
    si = j;
    maybe_skip(5);
  }
  // remaining rows
  if (m.comp == NONE) {
    size_t cap = (PL - po - 8) / m.row_length;
    if (cap > 65535) cap = 65535;
    while (ri < stored || (o.zero_pages && r.pct(6))) {
      maybe_skip(10);
      size_t k = std::min(stored - ri, r.pct(75) ? cap : r.below(cap + 1));
      if (k == 0 && !o.zero_pages) k = std::min<size_t>(1, stored - ri);
      if (k == 0 && ri >= stored && m.row_count > stored && r.pct(50)) break;
      std::string p = blank(256, uint16_t(k), uint16_t(r.pct(80) ? 0 : r.below(3)));
      for (size_t z = 0; z < k; ++z) { p.replace(po + 8 + z * m.row_length, m.row_length, m.rows[ri]); m.row_page[ri++] = uint32_t(pages.size()); }
      if (k == 0) ++m.n_zero;
      pages.push_back(p);
      ++m.n_data;
    }
  } else {
    while (ri < stored) {
      maybe_skip(10);
      size_t k = fit(drows, ri, 6 * I);
      if (k == ri) throw std::logic_error("sasgen: row does not fit");
      if (r.pct(20)) k = ri + 1 + r.below(k - ri);
      std::vector<Sub> v2(drows.begin() + long(ri), drows.begin() + long(k));
      if (r.pct(50)) { Sub h; h.hole = true; h.comp = 1; h.type = 1; v2.push_back(h); }
      if (r.pct(10)) { Sub h; h.hole = true; h.comp = 4; h.type = 1; v2.insert(v2.begin() + long(r.below(v2.size() + 1)), h); }
      pages.push_back(sub_page(v2, 0, v2.size(), 0, 0));
      ++m.n_data;
      ri = k;
    }
  }
  if (o.skip_pages && r.pct(15)) skip_page();
  m.mix_count = mixcnt;
  { // patch mix_page_row_count
    w.put(pages[rowsize_page], rowsize_off + 15 * I, mixcnt, I);
  }
  m.npages = uint32_t(pages.size());
  m.page_count = o.huge_counts ? uint32_t(r.range(65536, 0xFFFFFFFFull)) : r.pct(90) ? m.npages : uint32_t(r.below(100000));
  if (stored > m.row_count) { m.rows.resize(m.row_count); m.row_page.resize(m.row_count); if (!m.lossy.empty()) m.lossy.resize(m.row_count); }

  // --- header
  std::string h(m.header_length, '\0');
  if (!o.no_fold_garbage && r.pct(40)) for (size_t k = 288 + m.ta(); k < h.size(); ++k) h[k] = char(r.below(256));
  static const unsigned char magic[32] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xc2, 0xea, 0x81, 0x60, 0xb3, 0x14, 0x11, 0xcf, 0xbd, 0x92, 0x08, 0, 0x09, 0xc7, 0x31, 0x8c, 0x18, 0x1f, 0x10, 0x11};
  std::memcpy(&h[0], magic, 32);
  h[32] = m.b64 ? '3' : (r.pct(50) ? '"' : '2');
  h[35] = m.a1 ? '3' : (r.pct(50) ? '"' : '2');
  h[37] = m.be ? 0 : 1;
  h[39] = char(m.platform);
  h[70] = char(m.enc);
  char pad = r.pct(70) ? ' ' : '\0';
  text(h, 92, m.dataset_name, 64, pad);
  text(h, 156, m.file_type, 8, pad);
  size_t a1 = m.a1 ? 4 : 0, ta = m.ta();
  w.dbl(h, 164 + a1, m.created);
  w.dbl(h, 172 + a1, m.modified);
  w.put(h, 196 + a1, m.header_length, 4);
  w.put(h, 200 + a1, m.page_length, 4);
  w.put(h, 204 + a1, m.page_count, 4);
  text(h, 216 + ta, m.release, 8, pad);
  text(h, 224 + ta, m.server, 16, pad);
  text(h, 240 + ta, m.os_type, 16, pad);
  text(h, 256 + ta, m.os_name1, 16, pad);
  text(h, 272 + ta, m.os_name2, 16, '\0');
  m.bytes = h;
  for (auto &p : pages) m.bytes += p;
  for (auto &x : m.meta_offsets) x += m.header_length;
}

} // namespace sg
