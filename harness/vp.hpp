// Common machinery of the exhaustive harnesses: case numbering, sharding,
// replay of one case, distinct state counting, violation recording.
//
// A harness enumerates its whole space in a fixed order.  Every case has a
// section name and a number; R.begin("section") tells whether this process has
// to run it (sharding, replay).  Nothing is sampled.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <exception>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vp {

struct Progress {
  volatile uint64_t id;
  volatile char section[64];
  volatile char note[512];
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}
inline uint64_t bits(double d) {
  if (d == 0) d = 0;
  uint64_t u;
  std::memcpy(&u, &d, 8);
  if (d != d) u = 0x7ff8000000000000ULL;
  return u;
}
inline uint64_t hash(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return mix(h, s.size());
}

class Reporter {
 public:
  std::string tier = "quick";
  bool thorough() const { return tier == "thorough"; }

  void init(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto next = [&]() -> std::string {
        if (i + 1 >= argc) { std::fprintf(stderr, "missing value\n"); std::exit(3); }
        return argv[++i];
      };
      if (a == "--out") out_ = std::fopen(next().c_str(), "w");
      else if (a == "--shard") { auto s = next(); std::sscanf(s.c_str(), "%u/%u", &shard_, &nshards_); }
      else if (a == "--only") { auto s = next(); auto p = s.rfind(':'); only_section_ = s.substr(0, p); only_id_ = std::stoull(s.substr(p + 1)); only_ = true; }
      else if (a == "--tier") tier = next();
      else if (a == "--progress") {
        int fd = open(next().c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0)
          prog_ = static_cast<Progress*>(mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
      }
    }
    if (!out_) out_ = stdout;
    if (!prog_) prog_ = new Progress();
  }

  // Starts the next case of a section. False: not for this process.
  bool begin(const char* section) {
    uint64_t& c = counters_[section];
    const uint64_t id = c++;
    if (only_) {
      if (id != only_id_ || only_section_ != section) return false;
    } else if (nshards_ > 1 && id % nshards_ != shard_) {
      return false;
    }
    if (stop_) return false;
    cur_section_ = section;
    cur_id_ = id;
    prog_->id = id;
    size_t i = 0;
    for (; section[i] && i < 63; ++i) prog_->section[i] = section[i];
    prog_->section[i] = 0;
    ++cases_;
    ++per_section_[section];
    return true;
  }
  // Free text kept in the progress page: shown when the process dies.
  void note(const std::string& s) {
    size_t i = 0;
    for (; i < s.size() && i < 511; ++i) prog_->note[i] = s[i];
    prog_->note[i] = 0;
  }

  void state(uint64_t h) { states_.insert(h); }
  void transition(uint64_t n = 1) { transitions_ += n; }
  void trace(uint64_t n = 1) { traces_ += n; }
  void count(const std::string& k, uint64_t n = 1) { extra_[k] += n; }
  void outcome(const std::string& o) { ++outcomes_[o]; }
  void sample(const std::string& s) { if (samples_.size() < 6) samples_.push_back(s); }

  // Records a violation of the property in the current case.
  void fail(const std::string& key, const std::string& msg) {
    ++violations_;
    if (recorded_[key]++ < 2 && recorded_total_ < 60) {
      ++recorded_total_;
      std::fprintf(out_, "{\"t\":\"viol\",\"section\":\"%s\",\"id\":%llu,\"key\":%s,\"msg\":%s}\n",
                   cur_section_.c_str(), (unsigned long long)cur_id_, js(key).c_str(), js(msg).c_str());
      std::fflush(out_);
    }
    if (violations_ > 200000) stop_ = true;
  }

  int finish() {
    std::ostringstream o;
    o << "{\"t\":\"sum\",\"cases\":" << cases_ << ",\"states\":" << states_.size()
      << ",\"transitions\":" << transitions_ << ",\"traces\":" << traces_
      << ",\"violations\":" << violations_ << ",\"stopped\":" << (stop_ ? "true" : "false") << ",\"sections\":{";
    bool first = true;
    for (auto& kv : per_section_) { if (!first) o << ","; first = false; o << js(kv.first) << ":" << kv.second; }
    o << "},\"extra\":{";
    first = true;
    for (auto& kv : extra_) { if (!first) o << ","; first = false; o << js(kv.first) << ":" << kv.second; }
    o << "},\"outcomes\":{";
    first = true;
    for (auto& kv : outcomes_) { if (!first) o << ","; first = false; o << js(kv.first) << ":" << kv.second; }
    o << "},\"samples\":[";
    first = true;
    for (auto& s : samples_) { if (!first) o << ","; first = false; o << js(s); }
    o << "]}\n";
    std::fprintf(out_, "%s", o.str().c_str());
    // distinct states, merged by the driver
    std::fprintf(out_, "{\"t\":\"hashes\",\"h\":\"");
    for (auto h : states_) std::fprintf(out_, "%016llx", (unsigned long long)h);
    std::fprintf(out_, "\"}\n");
    std::fflush(out_);
    return 0;
  }

  static std::string js(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r + "\"";
  }

 private:
  FILE* out_ = nullptr;
  Progress* prog_ = nullptr;
  unsigned shard_ = 0, nshards_ = 1;
  bool only_ = false, stop_ = false;
  std::string only_section_, cur_section_;
  uint64_t only_id_ = 0, cur_id_ = 0, cases_ = 0, transitions_ = 0, traces_ = 0, violations_ = 0, recorded_total_ = 0;
  std::map<std::string, uint64_t> counters_, per_section_, extra_, outcomes_, recorded_;
  std::unordered_set<uint64_t> states_;
  std::vector<std::string> samples_;
};

extern Reporter R;

struct Str {
  std::string s;
  template <typename T>
  Str& operator<<(const T& v) {
    std::ostringstream o;
    o.precision(17);
    o << v;
    s += o.str();
    return *this;
  }
  operator std::string() const { return s; }
  const std::string& str() const { return s; }
};
inline std::ostream& operator<<(std::ostream& o, const Str& s) { return o << s.s; }

inline bool same(double a, double b) { return (a != a && b != b) || a == b; }
inline bool close(double a, double b, double tol) {
  if (a != a || b != b) return a != a && b != b;
  if (a == b) return true;
  return std::fabs(a - b) <= tol;
}
inline bool closec(const std::complex<double>& a, const std::complex<double>& b, double tol) {
  return close(a.real(), b.real(), tol) && close(a.imag(), b.imag(), tol);
}
inline double up(double x) { return std::nextafter(x, std::numeric_limits<double>::infinity()); }
inline double down(double x) { return std::nextafter(x, -std::numeric_limits<double>::infinity()); }
constexpr double kNaN = std::numeric_limits<double>::quiet_NaN();
constexpr double kInf = std::numeric_limits<double>::infinity();

// Runs f; returns "" if it returned, else the type of the exception.
template <typename F>
std::string thrown(F&& f) {
  try { f(); return ""; }
  catch (const std::invalid_argument&) { return "invalid_argument"; }
  catch (const std::out_of_range&) { return "out_of_range"; }
  catch (const std::exception& e) { return std::string("exception"); }
  catch (...) { return "unknown"; }
}

}  // namespace vp

#define VP_MAIN(run)                     \
  namespace vp { Reporter R; }           \
  int main(int argc, char** argv) {      \
    vp::R.init(argc, argv);              \
    run();                               \
    return vp::R.finish();               \
  }
