// Common frame of the check programs: runs cases, reports violations, counts what was observed.
#pragma once
#include "mon.hpp"
#include "refdec.hpp"
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>

namespace hn {

// ------------------------------------------------------------------ allocation monitor (alloc.cpp)
struct AllocStats { uint64_t live_bytes, live_blocks, peak_bytes, total_blocks; };
AllocStats alloc_stats();        // of this thread's process-wide counters
void alloc_reset_peak();
void alloc_fill(int byte);       // byte pattern of fresh memory, -1: none
void alloc_cap(uint64_t bytes);  // larger single requests throw std::bad_alloc

struct Ctx {
  std::string prop;
  uint64_t seed{1}, kase{0};
  bool thorough{false};
  std::string dump;   // directory for replay inputs
  std::string work;   // scratch directory
  std::map<std::string, uint64_t> n;
  std::set<uint64_t> inputs, features;
  std::map<std::string, int> reported;
  std::vector<std::string> samples;
  uint64_t violations{0};

  uint64_t case_seed(uint64_t salt = 0) const { return sg::Rng::mix(seed * 1000003ull + kase) ^ sg::Rng::mix(sg::fnv(prop) + salt); }
  void viol(const std::string &key, const std::string &detail, const std::string *bytes = nullptr);
  void input(const sg::Model &m) {
    inputs.insert(sg::fnv(m.bytes));
    feature(m);
    ++n["files"];
  }
  void feature(const sg::Model &m);
  void feature(uint64_t h) { if (features.size() < 200000) features.insert(h); }
  void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }
};

using CaseFn = void (*)(Ctx &);
struct Prop { const char *id; CaseFn fn; };
void register_prop(const char *id, CaseFn fn);
struct Reg { Reg(const char *id, CaseFn fn) { register_prop(id, fn); } };

const std::vector<std::string> &corpus_files(); // sorted list of real .sas7bdat files
const std::string &corpus_bytes(size_t i);
const sg::Model *corpus_model(size_t i); // nullptr: outside what refdec supports

sg::Opt small_opt(sg::Rng &r); // a small random profile
} // namespace hn
