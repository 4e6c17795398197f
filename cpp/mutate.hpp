// Damages files: fields of known meaning, pages, compressed streams and plain bytes.
#pragma once
#include "harness.hpp"

namespace mut {
inline uint64_t nasty(sg::Rng &r, const sg::Model &m) {
  const uint64_t P = m.page_length, L = m.row_length;
  switch (r.below(24)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return ~0ull;
  case 3: return P;
  case 4: return P - 1;
  case 5: return P + 1;
  case 6: return P - r.below(40);
  case 7: return 0x7FFFFFFF;
  case 8: return 0x80000000;
  case 9: return 0xFFFF;
  case 10: return 0x7FFF;
  case 11: return L;
  case 12: return L + 1;
  case 13: return L ? L - 1 : 0;
  case 14: return 0x7FFFFFFFFFFFFFFFull;
  case 15: return 0x8000000000000000ull;
  case 16: return ~0ull - r.below(64);
  case 17: return 0xFFFFFFFF - r.below(64);
  case 18: return m.row_count;
  case 19: return r.below(64);
  case 20: return r.below(70000);
  case 21: return 1ull << r.below(64);
  default: return r.next() >> r.below(64);
  }
}
inline void put(std::string &b, size_t off, uint64_t v, size_t n, bool be) {
  if (off + n > b.size()) return;
  sg::W{be}.put(b, off, v, n);
}
inline uint64_t get(const std::string &b, size_t off, size_t n, bool be) {
  uint64_t v = 0;
  for (size_t k = 0; k < n; ++k) v |= uint64_t(uint8_t(b[be ? off + n - 1 - k : off + k])) << 8 * k;
  return v;
}
// pointers and bodies of the subheaders, for files that were not generated
inline std::vector<uint64_t> pointed_at(const std::string &b, const sg::Model &m, sg::Rng &r) {
  std::vector<uint64_t> v;
  const size_t hl = m.header_length, P = m.page_length, I = m.isz(), po = m.po();
  if (!m.meta_offsets.empty()) return m.meta_offsets;
  if (b.size() < hl + P || P < po + 8 + 3 * I) return v;
  const size_t np = (b.size() - hl) / P, p = hl + (r.pct(70) ? r.below(std::min<size_t>(np, 3)) : r.below(np)) * P;
  const size_t n = get(b, p + po + 4, 2, m.be);
  for (size_t k = 0; k < n && po + 8 + (k + 1) * 3 * I <= P; ++k) {
    const size_t e = p + po + 8 + k * 3 * I;
    const uint64_t off = get(b, e, I, m.be);
    v.push_back(e);
    if (off < P) v.push_back(p + off);
  }
  return v;
}
// Moves the first bytes of a subheader to the very end of its page: whatever the reader takes from it beyond
// these bytes lies outside of the page.
inline bool to_the_edge(std::string &b, const sg::Model &m, sg::Rng &r) {
  const size_t hl = m.header_length, P = m.page_length, I = m.isz(), po = m.po();
  if (b.size() < hl + P || P < po + 8 + 3 * I) return false;
  const size_t np = (b.size() - hl) / P;
  for (int tries = 0; tries < 6; ++tries) {
    const size_t p = hl + (r.pct(60) ? r.below(std::min<size_t>(np, 3)) : r.below(np)) * P;
    const size_t n = get(b, p + po + 4, 2, m.be);
    if (!n || n > (P - po - 8) / (3 * I)) continue;
    const size_t e = p + po + 8 + r.below(n) * 3 * I;
    const uint64_t off = get(b, e, I, m.be), len = get(b, e + I, I, m.be);
    if (len < I || off > P || len > P - off) continue;
    size_t keep = r.pct(30) ? I + r.below(8) : I + r.below(std::min<size_t>(len, 600) - I + 1);
    keep = std::min<size_t>(keep, len);
    const size_t gap = r.pct(60) ? 0 : r.below(16);
    if (keep + gap > P - po - 8) continue;
    const size_t at = P - keep - gap;
    const std::string body = b.substr(p + off, keep);
    b.replace(p + at, keep, body);
    put(b, e, at, I, m.be);
    put(b, e + I, r.pct(80) ? keep : std::min<uint64_t>(len, keep + gap), I, m.be);
    return true;
  }
  return false;
}
// one damage; returns its name
inline const char *damage(std::string &b, const sg::Model &m, sg::Rng &r) {
  const size_t hl = m.header_length, P = m.page_length, I = m.isz(), po = m.po();
  const size_t np = b.size() > hl && P ? (b.size() - hl) / P : 0;
  const bool be = m.be;
  if (b.empty()) return "nothing";
  auto page = [&] { return hl + r.below(np) * P; };
  switch (r.below(25)) {
  case 0: case 1:
    for (uint64_t k = 1 + r.below(4); k; --k) b[r.below(b.size())] ^= char(1u << r.below(8));
    return "bit flips";
  case 2: b[r.below(b.size())] = char(r.below(256)); return "byte";
  case 3: { // header fields
    static const size_t at[] = {196, 200, 204, 164, 172};
    size_t k = r.below(5), o = at[k] + (m.a1 ? 4 : 0);
    put(b, o, k == 0 && r.pct(50) ? 276 + r.below(32) : nasty(r, m), k < 3 ? 4 : 8, be);
    return "header field";
  }
  case 4: { static const size_t at[] = {32, 35, 37, 39, 70, 0, 31}; if (b.size() > 70) b[at[r.below(7)]] = char(r.below(256)); return "header byte"; }
  case 5: case 6: // page header
    if (np) {
      static const uint16_t types[] = {0, 256, 512, 640, 1024, 16384, 0x9000, 0xFFFF, 1, 128};
      size_t p = page() + po, k = r.below(3);
      put(b, p + 2 * k, k == 0 ? types[r.below(10)] : nasty(r, m), 2, be);
    }
    return "page header";
  case 7: case 8: case 9: case 10: case 11: // subheader pointers and subheader bodies
    if (const auto offsets = pointed_at(b, m, r); !offsets.empty()) {
      size_t o = r.pick(offsets);
      size_t w = r.pct(40) ? I : r.pct(50) ? 2 : 4;
      put(b, o + w * r.below(r.pct(60) ? 4 : 40), nasty(r, m), w, be);
    }
    return "subheader field";
  case 12: // row size subheader: lengths and counts
    if (const auto offsets = pointed_at(b, m, r); !offsets.empty()) {
      for (size_t i = 0; i + 1 < offsets.size(); ++i) {
        size_t o = offsets[i];
        if (o + 16 * I > b.size()) continue;
        const bool sig = (uint8_t(b[o]) == 0xF7 && uint8_t(b[o + 1]) == 0xF7) || (I == 8 && uint8_t(b[o + 4]) == 0xF7 && uint8_t(b[o + 5]) == 0xF7);
        if (!sig) continue;
        static const size_t f[] = {5, 6, 9, 10, 15};
        put(b, o + f[r.below(5)] * I, nasty(r, m), I, be);
        break;
      }
    }
    return "row size field";
  case 13: b.resize(r.below(b.size() + 1)); return "truncated";
  case 14: b.append(r.below(2 * P + 10), char(r.below(256))); return "extended";
  case 15: if (np > 1) { size_t x = page(), y = page(); std::string t = b.substr(x, P); b.replace(x, P, b.substr(y, P)); if (r.pct(50)) b.replace(y, P, t); } return "pages moved";
  case 16: if (np) { size_t x = page(); b.insert(x, b.substr(page(), P)); } return "page inserted";
  case 17: if (np) b.erase(page(), P); return "page dropped";
  case 18: { size_t o = r.below(b.size()), n = std::min<size_t>(b.size() - o, 1 + r.below(64)); for (size_t k = 0; k < n; ++k) b[o + k] = char(r.below(256)); return "garbage"; }
  case 19: { size_t o = r.below(b.size()), s = r.below(b.size()), n = std::min({b.size() - o, b.size() - s, size_t(1 + r.below(200))}); b.replace(o, n, b.substr(s, n)); return "copied bytes"; }
  case 20: if (np) { // tail of a page: compressed rows live there
      size_t p = page() + P - 1 - r.below(std::min<size_t>(P, 200));
      for (uint64_t k = 1 + r.below(6); k && p < b.size(); --k, ++p) b[p] = char(r.pct(50) ? r.below(256) : r.below(16) << 4 | r.below(16));
    }
    return "compressed stream";
  case 21: case 22: return to_the_edge(b, m, r) ? "subheader at the edge" : "nothing";
  default: { size_t o = r.below(b.size()); put(b, o, nasty(r, m), r.pct(50) ? 4 : I, be); return "integer anywhere"; }
  }
}
inline std::string hostile(const sg::Model &m, sg::Rng &r, std::string &what) {
  std::string b = m.bytes;
  if (r.pct(1)) { // nothing but a believable start
    b.resize(std::min<size_t>(b.size(), 288 + r.below(600)));
    const size_t keep = 32 + r.below(200);
    for (size_t k = keep; k < b.size(); ++k) b[k] = char(r.below(256));
    what = "random behind the start";
    return b;
  }
  const uint64_t n = r.pct(55) ? 1 : r.pct(60) ? 2 : 3 + r.below(6);
  for (uint64_t k = 0; k < n; ++k) { if (k) what += ", "; what += damage(b, m, r); }
  return b;
}
} // namespace mut
