// Shared support for the runtime-monitoring drivers: deterministic PRNG, case bookkeeping,
// violation / coverage reporting (JSON lines on stdout), progress file for the watchdog.
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <unistd.h>

namespace vh {

inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return mix64(h);
}

// xoshiro256**
class Rng {
 public:
  explicit Rng(uint64_t seed) {
    for (auto& v : s_) {
      seed = mix64(seed);
      v = seed;
    }
  }
  uint64_t next() {
    const uint64_t r = rotl(s_[1] * 5, 7) * 9;
    const uint64_t t = s_[1] << 17;
    s_[2] ^= s_[0];
    s_[3] ^= s_[1];
    s_[1] ^= s_[2];
    s_[0] ^= s_[3];
    s_[2] ^= t;
    s_[3] = rotl(s_[3], 45);
    return r;
  }
  double u01() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  // inclusive range
  int irange(int lo, int hi) {
    if (hi <= lo) return lo;
    return lo + static_cast<int>(next() % static_cast<uint64_t>(hi - lo + 1));
  }
  bool chance(double p) { return u01() < p; }
  double normal() {
    double u = u01();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * u01());
  }
  double logu(double lo, double hi) { return std::exp(uni(std::log(lo), std::log(hi))); }
  double sgn() { return chance(0.5) ? 1.0 : -1.0; }
  std::vector<int> perm(int n) {
    std::vector<int> p(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i) p[static_cast<size_t>(i)] = i;
    for (int i = n - 1; i > 0; --i) std::swap(p[static_cast<size_t>(i)], p[static_cast<size_t>(irange(0, i))]);
    return p;
  }

 private:
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t s_[4];
};

inline std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char buf[8];
      std::snprintf(buf, sizeof(buf), "\\u%04x", c);
      o += buf;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

inline std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  return buf;
}

struct Args {
  uint64_t seed = 1;
  long cases = 100;
  long start = 0;
  long only = -1;
  std::string prop;      // report only oracles of this property
  std::string progress;  // progress file
  std::map<std::string, std::string> opt;
  std::string get(const std::string& k, const std::string& d = "") const {
    auto it = opt.find(k);
    return it == opt.end() ? d : it->second;
  }
  static Args parse(int argc, char** argv) {
    Args a;
    for (int i = 1; i + 1 < argc; i += 2) {
      const std::string k = argv[i], v = argv[i + 1];
      if (k == "--seed")
        a.seed = std::strtoull(v.c_str(), nullptr, 10);
      else if (k == "--cases")
        a.cases = std::atol(v.c_str());
      else if (k == "--start")
        a.start = std::atol(v.c_str());
      else if (k == "--only")
        a.only = std::atol(v.c_str());
      else if (k == "--prop")
        a.prop = v;
      else if (k == "--progress")
        a.progress = v;
      else
        a.opt[k.substr(2)] = v;
    }
    return a;
  }
};

inline uint64_t hash_doubles(const double* d, long n, uint64_t h = 7) {
  for (long i = 0; i < n; ++i) {
    uint64_t u;
    std::memcpy(&u, d + i, 8);
    h = mix64(h ^ u);
  }
  return h;
}

class Reporter {
 public:
  Reporter(const Args& a, const std::string& driver) : args_(a), driver_(driver) {
    if (!a.progress.empty()) {
      pfd_ = ::open(a.progress.c_str(), O_CREAT | O_WRONLY, 0644);
    }
  }

  uint64_t case_seed(long idx) const {
    return mix64(args_.seed * 0x2545F4914F6CDD1Dull + mix64(static_cast<uint64_t>(idx) + 77) +
                 hash_str(driver_));
  }

  void begin_case(long idx) {
    flush_case();
    case_ = idx;
    ++evaluations_;
    if (pfd_ >= 0) {
      char buf[32];
      std::snprintf(buf, sizeof(buf), "%20ld\n", idx);
      if (::pwrite(pfd_, buf, 21, 0) < 0) {
      }
    }
  }

  // `prop`: the property the oracle belongs to; ignored if the run is for a different property.
  bool active(const char* prop) const { return args_.prop.empty() || args_.prop == prop; }

  void violation(const char* prop, const std::string& key, const std::string& msg) {
    if (!active(prop)) return;
    ++violations_;
    int& n = per_key_[key];
    ++n;
    if (n > 2 || printed_ >= 40) return;
    ++printed_;
    std::printf("{\"t\":\"violation\",\"prop\":\"%s\",\"key\":\"%s\",\"case\":%ld,\"msg\":\"%s\"}\n", prop,
                json_escape(key).c_str(), case_, json_escape(msg.substr(0, 3000)).c_str());
    std::fflush(stdout);
  }

  void count(const std::string& name, long n = 1) { counters_[name] += n; }
  void maxval(const std::string& name, double v) {
    auto it = maxv_.find(name);
    if (it == maxv_.end() || v > it->second) maxv_[name] = v;
  }
  // Mark the current case as non-trivial (for one property, or for all) and mix `sig`, a hash of
  // what was observed, into its signature. A case counts once, and only if its signature is new.
  void distinct(uint64_t sig, const char* prop = nullptr) {
    // C09 is judged by the sanitizers, whatever the driver would otherwise look at.
    if (prop != nullptr && !active(prop) && args_.prop != "C09") return;
    nontrivial_ = true;
    sig_ = mix64(sig_ ^ sig);
  }
  void flush_case() {
    if (nontrivial_) distinct_.insert(sig_);
    nontrivial_ = false;
    sig_ = 0;
  }
  void sample(const std::string& s) {
    if (samples_.size() < 3) samples_.push_back(s.substr(0, 900));
  }

  int finish() {
    flush_case();
    const std::string sigs = args_.get("sigs");
    if (!sigs.empty()) {
      if (FILE* f = std::fopen(sigs.c_str(), "wb")) {
        for (uint64_t v : distinct_) std::fwrite(&v, 8, 1, f);
        std::fclose(f);
      }
    }
    std::string o = strf("{\"t\":\"summary\",\"driver\":\"%s\",\"evaluations\":%ld,\"distinct\":%zu,\"violations\":%ld",
                         driver_.c_str(), evaluations_, distinct_.size(), violations_);
    o += ",\"counters\":{";
    bool first = true;
    for (auto& kv : counters_) {
      if (!first) o += ",";
      first = false;
      o += "\"" + json_escape(kv.first) + "\":" + std::to_string(kv.second);
    }
    for (auto& kv : maxv_) {
      if (!first) o += ",";
      first = false;
      o += "\"max:" + json_escape(kv.first) + "\":" +
           (std::isfinite(kv.second) ? strf("%.6g", kv.second) : std::string("null"));
    }
    o += "},\"samples\":[";
    first = true;
    for (auto& s : samples_) {
      if (!first) o += ",";
      first = false;
      o += "\"" + json_escape(s) + "\"";
    }
    o += "]}\n";
    std::fputs(o.c_str(), stdout);
    std::fflush(stdout);
    return violations_ > 0 ? 3 : 0;
  }

  void at_case(long idx) { case_ = idx; }
  long case_index() const { return case_; }
  const Args& args() const { return args_; }

 private:
  Args args_;
  std::string driver_;
  int pfd_ = -1;
  long case_ = -1;
  bool nontrivial_ = false;
  uint64_t sig_ = 0;
  long evaluations_ = 0;
  long violations_ = 0;
  int printed_ = 0;
  std::map<std::string, int> per_key_;
  std::map<std::string, long> counters_;
  std::map<std::string, double> maxv_;
  std::unordered_set<uint64_t> distinct_;
  std::vector<std::string> samples_;
};

// Run all the cases of a driver.
template <typename F>
void run_cases(Reporter& rep, F&& f) {
  const Args& a = rep.args();
  if (a.only >= 0) {
    rep.begin_case(a.only);
    f(a.only, rep.case_seed(a.only));
    return;
  }
  for (long i = a.start; i < a.cases; ++i) {
    rep.begin_case(i);
    f(i, rep.case_seed(i));
  }
}

inline bool same_bits(double a, double b) {
  uint64_t x, y;
  std::memcpy(&x, &a, 8);
  std::memcpy(&y, &b, 8);
  return x == y;
}
// Same value, treating every NaN as equal (but distinguishing signed zeros).
inline bool same_value(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return same_bits(a, b);
}

}  // namespace vh
