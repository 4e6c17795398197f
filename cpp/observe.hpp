// Everything that can be observed of reading some bytes, as one number.
#pragma once
#include "harness.hpp"

namespace ob {
namespace cs = cppsas7bdat;
using mon::Bad;
struct StopReading {}; // the monitor has seen enough

struct Digest {
  uint64_t h{1469598103934665603ull};
  bool starved{false}; // memory ran out: how much is needed is not part of the result
  uint64_t printed{0};
  std::string text;
  void add(const std::string &s) { h = sg::fnv(s, h) * 31 + s.size(); if (text.size() < 60000) text += s + "|"; }
};
// everything that can be observed of reading these bytes
template <class Src> void observe(Digest &d, Src &&src, size_t row_limit, bool raw = false) {
  mon::Watch w;
  uint64_t n = 0, row_length = 0;
  w.on_row = [&](size_t i, cs::Column::PBUF p) {
    if (++n > row_limit) throw StopReading();
    d.add("#" + std::to_string(i));
    if (raw && p) d.add(std::string(reinterpret_cast<const char *>(p), row_length));
    for (auto &col : w.cols) d.add(col.to_string(p));
  };
  w.sequential = false;
  w.on_end = [&] { d.add("E"); };
  w.on_props = [&] {
    auto &p = *w.props_ptr;
    row_length = p.row_length;
    d.add(p.dataset_name + "," + p.encoding + "," + p.sas_release + "," + std::to_string(p.row_count) + "," + std::to_string(p.row_length) + "," + std::to_string(p.page_length));
    d.add(p.file_type + "," + p.sas_server_type + "," + p.os_type + "," + p.os_name + "," + p.creator + "," + p.creator_proc + "," + std::to_string(p.header_length) + "," + std::to_string(p.page_count) + "," + std::to_string(p.column_count) + "," +
          std::to_string(p.col_count_p1) + "," + std::to_string(p.col_count_p2) + "," + std::to_string(p.mix_page_row_count) + "," + std::to_string(p.lcs) + "," + std::to_string(p.lcp));
    d.add(std::string(cs::to_string(p.format)) + std::string(cs::to_string(p.endianness)) + std::string(cs::to_string(p.platform)) + std::string(cs::to_string(p.compression)));
    for (auto &t : {p.date_created, p.date_modified}) d.add(t.is_special() ? "-" : std::to_string((t - mon::epoch1960()).total_microseconds()));
    for (auto &col : p.columns) d.add(std::to_string(col.length()) + std::string(cs::to_string(col.type)));
    for (auto &col : p.columns) d.add(col.name + "," + col.label + "," + col.format);
  };
  try {
    mon::Sink snk(w);
    cs::Reader rd(std::forward<Src>(src), snk);
    rd.read_all();
    d.add("done");
  } catch (const StopReading &) { d.add("stopped"); }
  catch (const mon::Runaway &e) { d.add(std::string("runaway: ") + e.what); }
  catch (const std::bad_alloc &) { d.starved = true; }
  catch (const std::length_error &) { d.starved = true; }
  catch (const std::exception &e) { d.add(std::string("exception: ") + e.what()); }
}
} // namespace ob
