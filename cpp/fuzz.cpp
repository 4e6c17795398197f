// P12, thorough: coverage-guided damage (libFuzzer).  The first byte picks how the file is read.
#include <cppsas7bdat/column.hpp>
#include <cppsas7bdat/properties.hpp>
#include <cppsas7bdat/reader.hpp>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <cstdio>
#include <new>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/spdlog.h>

namespace hn { void alloc_cap(uint64_t bytes); } // alloc.cpp
namespace cs = cppsas7bdat;
namespace {
[[noreturn]] void violation(const char *what) {
  std::fprintf(stderr, "MONITOR: %s\n", what);
  std::abort();
}
struct Stop {};
struct Source {
  const uint8_t *p;
  size_t n, pos{0};
  bool eager, eofbit{false};
  uint64_t calls{0};
  void count() { if (++calls > 2000 + n) violation("runaway: reads without end"); }
  bool eof() { count(); return eager ? pos >= n : eofbit; }
  bool read_bytes(void *to, const size_t k) {
    count();
    const size_t left = n - pos;
    if (eofbit && !eager) return false;
    if (k > left) { std::memcpy(to, p + pos, left); pos = n; eofbit = true; return false; }
    std::memcpy(to, p + pos, k);
    pos += k;
    return true;
  }
};
struct Sink {
  cs::COLUMNS cols;
  uint64_t rows{0}, limit{0}, length{0}, texts{0}, bytes{0};
  size_t from{0};
  int props{0};
  size_t size{0};
  volatile uint64_t acc{0};
  void set_properties(const cs::Properties &p) {
    ++props;
    cols = cs::COLUMNS(p.columns);
    length = p.row_length;
    limit = std::min<uint64_t>(p.row_count, size / std::max<uint64_t>(1, std::min<uint64_t>(length, 12)) + 16);
  }
  void eat(cs::Column::PBUF p) {
    ++rows;
    if (!length) { if (rows > 2000) throw Stop(); }
    else if (rows > limit) violation("more rows than the file can hold");
    if (texts > 4000 || bytes > (64ull << 20)) return; // a few bytes can expand to many long rows
    bytes += length;
    uint64_t s = 0;
    for (uint64_t k = 0; k < length; ++k) s += static_cast<const unsigned char *>(p)[k];
    for (auto &c : cols) {
      for (unsigned char ch : c.get_string(p)) s += ch;
      s += c.get_number(p) > 0;
      s += uint64_t(c.get_integer(p));
      const auto dt = c.get_datetime(p);
      const auto da = c.get_date(p);
      const auto ti = c.get_time(p);
      s += dt.is_special() + da.is_special() + ti.is_special() + c.to_string(p).size();
      ++texts;
      bytes += 3 * c.length();
    }
    acc = acc + s;
  }
  void push_row(const size_t i, cs::Column::PBUF p) {
    if (!props) violation("push_row before set_properties");
    if (i < from) violation("row index goes back");
    from = i + 1;
    eat(p);
  }
  void end_of_data() { if (!props) violation("end_of_data before set_properties"); }
};
} // namespace

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  hn::alloc_cap(48ull << 20);
  spdlog::set_default_logger(spdlog::null_logger_mt("null"));
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  if (size < 2) return 0;
  Sink snk;
  snk.size = size;
  Source src{data + 1, size - 1, 0, bool(data[0] & 1)};
  try {
    cs::Reader rd(src, snk);
    for (int tries = 0; tries < 3; ++tries)
      try {
        if (data[0] & 2) { while (auto p = rd.read_row_no_sink()) snk.eat(p); }
        else if (data[0] & 4) { rd.skip(data[0] >> 4); rd.read_all(); }
        else rd.read_all();
        break;
      } catch (const std::exception &) {}
    cs::Reader moved(std::move(rd));
    (void)moved.skip(3);
  } catch (const Stop &) {
  } catch (const std::exception &) {
  } catch (...) { violation("an exception that is no std::exception"); }
  return 0;
}
