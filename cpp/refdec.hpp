// refdec: an independent decoder of SAS7BDAT files, written from the published description of the
// format (no code of the library is used).  It turns the bytes of a file into a sg::Model, so that
// the monitors can compare what the library delivers for real files with a second opinion.
#pragma once
#include "sasgen.hpp"
#include <optional>

namespace ref {

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct Dec {
  const std::string &b;
  sg::Model m;
  explicit Dec(const std::string &bytes) : b(bytes) {}

  static uint64_t num(const std::string &s, size_t at, size_t n, bool be) {
    if (at > s.size() || n > s.size() - at) throw Unsupported("short");
    uint64_t v = 0;
    for (size_t k = 0; k < n; ++k) v |= uint64_t(uint8_t(s[be ? at + n - 1 - k : at + k])) << (8 * k);
    return v;
  }
  double real(size_t at) const {
    uint64_t v = num(b, at, 8, m.be);
    double d;
    std::memcpy(&d, &v, 8);
    return d;
  }
  static std::string strip(const std::string &s) { // blanks in front; blanks and control bytes behind
    size_t a = 0, e = s.size();
    auto sp = [](unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); };
    while (a < e && sp(uint8_t(s[a]))) ++a;
    while (e > a && (uint8_t(s[e - 1]) < 0x21 || uint8_t(s[e - 1]) == 0x7F)) --e;
    return s.substr(a, e - a);
  }
  std::string field(size_t at, size_t n) const {
    if (at + n > b.size()) throw Unsupported("short header");
    return strip(b.substr(at, n));
  }

  static std::string unrle(const std::string &in, size_t want) {
    std::string o;
    size_t i = 0;
    auto byte = [&]() -> unsigned { if (i >= in.size()) throw Unsupported("RLE stream ends early"); return uint8_t(in[i++]); };
    while (i < in.size() && o.size() < want) {
      unsigned c = byte(), hi = c >> 4, lo = c & 15;
      size_t n = 0;
      auto copy = [&](size_t k) { if (k > in.size() - i) k = in.size() - i; o.append(in, i, k); i += k; };
      switch (hi) {
      case 0x0: n = lo * 256 + byte() + 64; copy(n); break;
      case 0x4: n = lo * 16 + byte() + 18; o.append(n, char(byte())); break;
      case 0x5: n = lo * 256 + byte() + 17; o.append(n, '@'); break;
      case 0x6: n = lo * 256 + byte() + 17; o.append(n, ' '); break;
      case 0x7: n = lo * 256 + byte() + 17; o.append(n, '\0'); break;
      case 0x8: case 0x9: case 0xA: case 0xB: copy(lo + 1 + (hi - 8) * 16); break;
      case 0xC: n = lo + 3; o.append(n, char(byte())); break;
      case 0xD: o.append(lo + 2, '@'); break;
      case 0xE: o.append(lo + 2, ' '); break;
      case 0xF: o.append(lo + 2, '\0'); break;
      default: throw Unsupported("RLE command");
      }
    }
    if (o.size() > want) throw Unsupported("RLE row too long");
    o.resize(want, '\0');
    return o;
  }
  static std::string unrdc(const std::string &in, size_t want) {
    std::string o;
    size_t i = 0;
    unsigned ctrl = 0;
    int left = 0;
    auto byte = [&]() -> unsigned { if (i >= in.size()) throw Unsupported("RDC stream ends early"); return uint8_t(in[i++]); };
    while (i < in.size() && o.size() < want) {
      if (!left) { ctrl = byte() << 8; ctrl |= byte(); left = 16; if (i >= in.size()) break; }
      --left;
      if (!(ctrl >> left & 1)) { o.push_back(char(byte())); continue; }
      unsigned c = byte(), cmd = c >> 4, lo = c & 15;
      if (cmd == 0) { unsigned v = byte(); o.append(lo + 3, char(v)); }
      else if (cmd == 1) { unsigned k = byte(), v = byte(); o.append(lo + k * 16 + 19, char(v)); }
      else {
        size_t ofs = lo + 3 + byte() * 16, n = cmd == 2 ? byte() + 16 : cmd;
        if (ofs > o.size()) throw Unsupported("RDC pattern");
        for (size_t k = 0; k < n; ++k) o.push_back(o[o.size() - ofs]);
      }
    }
    if (o.size() > want) throw Unsupported("RDC row too long");
    o.resize(want, '\0');
    return o;
  }

  enum SubKind { S_NONE, S_ROW, S_COLS, S_COUNTS, S_TEXT, S_NAME, S_ATTR, S_FMT, S_LIST };
  SubKind classify(const std::string &page, size_t at) const {
    const size_t I = m.isz();
    const uint64_t v = num(page, at, I, m.be);
    uint32_t sig = uint32_t(v);
    if (I == 8) {
      const uint32_t hi = uint32_t(v >> 32);
      if (sig == 0 && (hi == 0xF7F7F7F7u || hi == 0xF6F6F6F6u)) sig = hi;
      else if (hi == 0 && (sig == 0xF7F7F7F7u || sig == 0xF6F6F6F6u)) {}
      else if (hi != 0xFFFFFFFFu) return S_NONE;
      else if (sig == 0xF7F7F7F7u || sig == 0xF6F6F6F6u) return S_NONE;
    }
    switch (sig) {
    case 0xF7F7F7F7u: return S_ROW;
    case 0xF6F6F6F6u: return S_COLS;
    case 0xFFFFFC00u: return S_COUNTS;
    case 0xFFFFFFFDu: return S_TEXT;
    case 0xFFFFFFFFu: return S_NAME;
    case 0xFFFFFFFCu: return S_ATTR;
    case 0xFFFFFBFEu: return S_FMT;
    case 0xFFFFFFFEu: return S_LIST;
    }
    return S_NONE;
  }

  sg::Model run() {
    static const unsigned char magic[32] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xc2, 0xea, 0x81, 0x60, 0xb3, 0x14, 0x11, 0xcf, 0xbd, 0x92, 0x08, 0, 0x09, 0xc7, 0x31, 0x8c, 0x18, 0x1f, 0x10, 0x11};
    if (b.size() < 288 || std::memcmp(b.data(), magic, 32)) throw Unsupported("not a sas7bdat");
    m.b64 = b[32] == '3';
    m.a1 = b[35] == '3';
    m.be = b[37] != 1;
    m.platform = uint8_t(b[39]);
    m.enc = uint8_t(b[70]);
    m.dataset_name = field(92, 64);
    m.file_type = field(156, 8);
    const size_t a1 = m.a1 ? 4 : 0, ta = m.ta();
    m.created = real(164 + a1);
    m.modified = real(172 + a1);
    m.header_length = uint32_t(num(b, 196 + a1, 4, m.be));
    m.page_length = uint32_t(num(b, 200 + a1, 4, m.be));
    m.page_count = uint32_t(num(b, 204 + a1, 4, m.be));
    m.release = field(216 + ta, 8);
    m.server = field(224 + ta, 16);
    m.os_type = field(240 + ta, 16);
    m.os_name1 = field(256 + ta, 16);
    m.os_name2 = b[272 + ta] ? field(272 + ta, 16) : std::string();
    if (m.header_length < 288 || m.page_length < 64) throw Unsupported("header");

    const size_t I = m.isz(), po = m.po(), PL = m.page_length;
    std::vector<std::string> texts;
    struct Ref { size_t idx, off, len; };
    std::vector<Ref> names, formats, labels;
    struct Attr { uint64_t off; uint32_t len; uint8_t type; };
    std::vector<Attr> attrs;
    bool metadata_done = false, have_row = false;
    uint64_t declared_cols = 0;
    m.npages = uint32_t((b.size() - m.header_length) / PL);
    for (uint32_t pg = 0; pg < m.npages; ++pg) {
      const std::string page = b.substr(m.header_length + size_t(pg) * PL, PL);
      const unsigned type = unsigned(num(page, po, 2, m.be)), blocks = unsigned(num(page, po + 2, 2, m.be)), nsub = unsigned(num(page, po + 4, 2, m.be));
      const bool mix = type == 512 || type == 640, meta = type == 0 || type == 1024;
      bool rows_here = false;
      if (mix || meta) {
        for (unsigned k = 0; k < nsub; ++k) {
          const size_t q = po + 8 + k * 3 * I;
          const uint64_t at = num(page, q, I, m.be), len = num(page, q + I, I, m.be);
          const unsigned comp = uint8_t(page.at(q + 2 * I)), st = uint8_t(page.at(q + 2 * I + 1));
          if (!len || comp == 1) continue;
          if (at > PL || len > PL - at) throw Unsupported("pointer");
          const std::string s = page.substr(at, len);
          const bool may_be_row = m.comp != sg::NONE && st == 1 && (comp == 4 || comp == 0);
          if (metadata_done) { if (type == 0 && may_be_row) { add_row(s, pg); } continue; }
          const SubKind kind = (m.comp != sg::NONE && comp == 4 && st == 1) || s.size() < I ? S_NONE : classify(s, 0);
          switch (kind) {
          case S_ROW:
            have_row = true;
            m.row_length = num(s, 5 * I, I, m.be);
            m.row_count = num(s, 6 * I, I, m.be);
            m.p1 = num(s, 9 * I, I, m.be);
            m.p2 = num(s, 10 * I, I, m.be);
            m.mix_count = num(s, 15 * I, I, m.be);
            break;
          case S_COLS: declared_cols = num(s, I, I, m.be); break;
          case S_TEXT: {
            const size_t n = size_t(num(s, I, 2, m.be));
            texts.push_back(page.substr(at + I, n));
            if (texts.size() == 1) {
              if (texts[0].find("SASYZCRL") != std::string::npos) m.comp = sg::RLE;
              else if (texts[0].find("SASYZCR2") != std::string::npos) m.comp = sg::RDC;
            }
            break;
          }
          case S_NAME:
            for (size_t e = I + 8; e + 8 + 4 + I <= s.size() + 0 + 0; e += 8) names.push_back({size_t(num(s, e, 2, m.be)), size_t(num(s, e + 2, 2, m.be)), size_t(num(s, e + 4, 2, m.be))});
            break;
          case S_ATTR:
            for (size_t e = I + 8; e + 12 + I <= s.size(); e += I + 8) attrs.push_back({num(s, e, I, m.be), uint32_t(num(s, e + I, 4, m.be)), uint8_t(s.at(e + I + 6))});
            break;
          case S_FMT: {
            const size_t f = 3 * I;
            formats.push_back({size_t(num(s, f + 22, 2, m.be)), size_t(num(s, f + 24, 2, m.be)), size_t(num(s, f + 26, 2, m.be))});
            labels.push_back({size_t(num(s, f + 28, 2, m.be)), size_t(num(s, f + 30, 2, m.be)), size_t(num(s, f + 32, 2, m.be))});
            break;
          }
          case S_NONE:
            if (may_be_row) { add_row(s, pg); rows_here = true; }
            break;
          default: break;
          }
        }
      }
      if (type == 256) {
        for (unsigned k = 0; k < blocks; ++k) add_raw(page, po + 8 + k * m.row_length, pg);
        metadata_done = true;
      } else if (mix) {
        size_t at = po + 8 + nsub * 3 * I;
        at += at % 8;
        const uint64_t n = std::min(m.row_count, m.mix_count);
        for (uint64_t k = 0; k < n; ++k) { if (m.rows.size() >= m.row_count) break; add_raw(page, at + k * m.row_length, pg); }
        metadata_done = true;
      }
      if (rows_here) metadata_done = true;
      if (m.rows.size() > m.row_count) { m.rows.resize(m.row_count); m.row_page.resize(m.row_count); if (!m.lossy.empty()) m.lossy.resize(m.row_count); }
      if (metadata_done && m.rows.size() >= m.row_count) break;
    }
    if (!have_row) throw Unsupported("no row size");
    auto sub = [&](const Ref &r) -> std::string {
      if (r.idx >= texts.size()) return {};
      const std::string &t = texts[r.idx];
      if (r.off >= t.size()) return {};
      std::string s = t.substr(r.off, r.len);
      if (s.empty() || uint8_t(s[0]) < 0x20 || uint8_t(s[0]) == 0x7F) return {};
      return strip(s);
    };
    if (names.size() < declared_cols || attrs.size() < declared_cols || formats.size() < declared_cols) throw Unsupported("column metadata incomplete");
    for (size_t k = 0; k < declared_cols; ++k) {
      sg::Col c;
      c.name = sub(names[k]);
      c.label = sub(labels[k]);
      c.format = sub(formats[k]);
      c.numeric = attrs[k].type == 1;
      c.len = attrs[k].len;
      c.off = attrs[k].off;
      if (c.off > m.row_length || c.len > m.row_length - c.off) throw Unsupported("column outside the row");
      m.cols.push_back(c);
    }
    m.bytes = b;
    return m;
  }
  void add_raw(const std::string &page, size_t at, uint32_t pg) {
    if (m.rows.size() >= m.row_count) return;
    if (at > page.size() || m.row_length > page.size() - at) throw Unsupported("row outside the page");
    m.rows.push_back(page.substr(at, m.row_length));
    m.row_page.push_back(pg);
  }
  void add_row(const std::string &s, uint32_t pg) {
    if (m.rows.size() >= m.row_count) return;
    std::string r = s.size() < m.row_length ? (m.comp == sg::RLE ? unrle(s, m.row_length) : unrdc(s, m.row_length)) : s;
    if (m.comp == sg::RDC && s.size() < m.row_length) {
      std::string l = sg::rdc_without_tail(s, m.row_length);
      if (l != r && m.lossy.empty()) m.lossy = m.rows;
      if (l != r || !m.lossy.empty()) m.lossy.push_back(l);
    } else if (!m.lossy.empty()) m.lossy.push_back(r);
    m.rows.push_back(r);
    m.row_page.push_back(pg);
  }
};

inline sg::Model decode(const std::string &bytes) { return Dec(bytes).run(); }

} // namespace ref
