#include "harness.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/spdlog.h>
#include <sys/mman.h>
#include <unistd.h>

namespace hn {
static std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
void register_prop(const char *id, CaseFn fn) { props().push_back({id, fn}); }

static std::string jesc(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o.push_back('\\'); o.push_back(char(c)); }
    else if (c < 0x20 || c >= 0x7F) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o.push_back(char(c));
  }
  return o + "\"";
}
void Ctx::viol(const std::string &key, const std::string &detail, const std::string *bytes) {
  ++violations;
  if (++reported[key] > 3) return; // the driver needs a few, not thousands
  std::string file;
  if (bytes && !dump.empty()) {
    file = dump + "/" + prop + "-case" + std::to_string(kase) + ".sas7bdat";
    std::ofstream(file, std::ios::binary) << *bytes;
  }
  std::printf("V {\"key\": %s, \"case\": %llu, \"detail\": %s, \"file\": %s}\n", jesc(key).c_str(), static_cast<unsigned long long>(kase), jesc(detail).c_str(), jesc(file).c_str());
  std::fflush(stdout);
}
void Ctx::feature(const sg::Model &m) {
  uint64_t h = uint64_t(m.be) | uint64_t(m.b64) << 1 | uint64_t(m.a1) << 2 | uint64_t(m.comp) << 3;
  auto lg = [](uint64_t v) { uint64_t k = 0; while (v) { ++k; v >>= 1; } return k; };
  h |= lg(m.n_meta_pages) << 6 | lg(m.n_mix) << 10 | lg(m.n_data) << 12 | std::min<uint64_t>(m.n_skip, 3) << 17 | std::min<uint64_t>(m.n_zero, 3) << 19;
  h |= lg(m.n_raw) << 22 | lg(m.n_packed) << 27 | uint64_t(m.n_text > 1) << 32 | uint64_t(m.n_name > 1) << 33 | uint64_t(m.n_attr > 1) << 34;
  h |= uint64_t(m.row_count > m.rows.size()) << 36 | lg(m.rows.size()) << 38 | lg(m.cols.size()) << 44;
  feature(sg::fnv(&h, 8) ^ m.cmd_mask * 31);
}
const std::vector<std::string> &corpus_files() {
  static std::vector<std::string> v = [] {
    std::vector<std::string> out;
    const char *root = std::getenv("CORPUS");
    std::function<void(const std::string &)> walk = [&](const std::string &d) {
      DIR *h = opendir(d.c_str());
      if (!h) return;
      while (auto e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        if (e->d_type == DT_DIR) walk(p);
        else if (n.size() > 9 && n.substr(n.size() - 9) == ".sas7bdat") out.push_back(p);
      }
      closedir(h);
    };
    if (root) walk(root);
    std::sort(out.begin(), out.end());
    return out;
  }();
  return v;
}
const std::string &corpus_bytes(size_t i) {
  static std::vector<std::unique_ptr<std::string>> c(corpus_files().size());
  if (!c[i]) {
    std::ifstream f(corpus_files()[i], std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    c[i] = std::make_unique<std::string>(ss.str());
  }
  return *c[i];
}
const sg::Model *corpus_model(size_t i) {
  static std::vector<std::unique_ptr<sg::Model>> c(corpus_files().size());
  static std::vector<char> tried(corpus_files().size());
  if (!tried[i]) {
    tried[i] = 1;
    try { c[i] = std::make_unique<sg::Model>(ref::decode(corpus_bytes(i))); }
    catch (const std::exception &e) { if (std::getenv("REFDEC_DEBUG")) std::fprintf(stderr, "%s: %s\n", corpus_files()[i].c_str(), e.what()); }
  }
  return c[i].get();
}
sg::Opt small_opt(sg::Rng &r) {
  sg::Opt o;
  o.max_cols = r.pct(70) ? 6 : 14;
  o.max_rows = r.pct(70) ? 20 : 70;
  o.small_pages = r.pct(40);
  if (r.pct(5)) o.max_strlen = 200;
  if (r.pct(3)) { o.long_rows = true; o.max_cols = 5; o.max_rows = 8; }
  return o;
}
} // namespace hn

int main(int argc, char **argv) {
  hn::Ctx c;
  uint64_t from = 0, step = 1, count = 1;
  std::string progress;
  bool single = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--seed") c.seed = std::stoull(val());
    else if (a == "--from") from = std::stoull(val());
    else if (a == "--step") step = std::stoull(val());
    else if (a == "--to") count = std::stoull(val());
    else if (a == "--case") { from = std::stoull(val()); count = from + 1; step = 1; single = true; }
    else if (a == "--thorough") c.thorough = true;
    else if (a == "--progress") progress = val();
    else if (a == "--dump") c.dump = val();
    else if (a == "--work") c.work = val();
    else c.prop = a;
  }
  (void)single;
  spdlog::set_default_logger(std::make_shared<spdlog::logger>("null", std::make_shared<spdlog::sinks::null_sink_mt>()));
  hn::CaseFn fn = nullptr;
  for (auto &p : hn::props()) if (c.prop == p.id) fn = p.fn;
  if (!fn) { std::fprintf(stderr, "unknown property %s\n", c.prop.c_str()); return 3; }
  volatile uint64_t *prog = nullptr;
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, 16)) return 3;
    prog = static_cast<volatile uint64_t *>(mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    close(fd);
  }
  auto flush = [&] {
    std::string s = "S {";
    auto &sn = mon::seen();
    std::map<std::string, uint64_t> n = c.n;
    n["rows_checked"] += sn.rows; n["values_checked"] += sn.values; n["strings"] += sn.strings; n["numbers"] += sn.numbers;
    n["integers"] += sn.integers; n["dates"] += sn.dates; n["datetimes"] += sn.datetimes; n["times"] += sn.times;
    n["missing_values"] += sn.missing; n["texts_checked"] += sn.texts;
    bool first = true;
    for (auto &[k, v] : n) { if (!v) continue; if (!first) s += ", "; first = false; s += hn::jesc(k) + ": " + std::to_string(v); }
    std::printf("%s}\n", s.c_str());
    std::fflush(stdout);
  };
  uint64_t done = 0;
  for (uint64_t k = from; k < count; k += step) {
    if (prog) prog[0] = k + 1;
    c.kase = k;
    try { fn(c); }
    catch (const std::logic_error &e) {
      if (std::strncmp(e.what(), "sasgen", 6) == 0) { std::printf("H %s\n", e.what()); return 4; } // the harness is at fault
      c.viol("unexpected-exception", e.what());
    }
    catch (const std::exception &e) { c.viol("unexpected-exception", e.what()); }
    ++c.n["cases"];
    if (++done % 200 == 0) flush();
  }
  flush();
  for (auto &s : c.samples) std::printf("X %s\n", hn::jesc(s).c_str());
  auto hex = [&](char t, const std::set<uint64_t> &v) {
    std::string s;
    char b[20];
    for (auto h : v) { std::snprintf(b, sizeof b, " %llx", static_cast<unsigned long long>(h)); s += b; }
    std::printf("%c%s\n", t, s.c_str());
  };
  hex('I', c.inputs);
  hex('F', c.features);
  std::printf("DONE\n");
  std::fflush(stdout);
  if (prog) prog[0] = 0;
  return 0;
}
