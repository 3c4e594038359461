// Common part of all the harnesses: PRNG, case driver, counters, reporting.
#pragma once

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

inline std::uint64_t mix(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(mix(seed)) {}
  std::uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    std::uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }
  // inclusive bounds
  long ri(long a, long b) {
    if (b <= a)
      return a;
    return a + static_cast<long>(next() % static_cast<std::uint64_t>(b - a + 1));
  }
  double uni() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool p(double prob) { return uni() < prob; }
  template <typename T> const T &pick(const std::vector<T> &v) {
    return v[static_cast<std::size_t>(ri(0, static_cast<long>(v.size()) - 1))];
  }
  template <typename T> void shuffle(std::vector<T> &v) {
    for (std::size_t k = v.size(); k > 1; --k)
      std::swap(v[k - 1], v[static_cast<std::size_t>(ri(0, static_cast<long>(k) - 1))]);
  }
};

struct Violation {
  std::string key; // short, stable identification of what was violated
  std::string msg;
};

// a failure of the harness itself, never of the code under test
struct HarnessError {
  std::string msg;
};

inline std::string jesc(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += static_cast<char>(c);
  }
  return r + "\"";
}

struct Stats {
  std::map<std::string, std::uint64_t> cnt;
  std::map<std::string, double> mx;
  std::unordered_set<std::uint64_t> distinct;
  std::vector<std::string> samples;
  void add(const std::string &k, std::uint64_t n = 1) { cnt[k] += n; }
  void maxi(const std::string &k, double v) {
    auto it = mx.find(k);
    if (it == mx.end() || it->second < v)
      mx[k] = v;
  }
};

struct Ctx {
  std::uint64_t seed;
  long id;
  bool thorough;
  Rng rng;
  Stats &st;
  std::string desc;
  // marks this case as one that really exercised the property
  void nontrivial(std::uint64_t signature) { st.distinct.insert(signature); }
};

inline std::uint64_t hashStr(const std::string &s) {
  std::uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return h;
}

template <typename... A> std::string cat(const A &...a) {
  std::ostringstream o;
  o.precision(9);
  (o << ... << a);
  return o.str();
}

template <typename... A>
[[noreturn]] void fail(const std::string &key, const A &...a) {
  throw Violation{key, cat(a...)};
}

// the message is formatted only when needed
#define require(COND, ...)                                                     \
  do {                                                                         \
    if (!(COND))                                                               \
      ::vf::fail(__VA_ARGS__);                                                 \
  } while (false)

// samples that can't refer to the passed variables: a column is missing, or a value is out of its domain
template <typename Samples, typename Vars> void spoilSamples(Samples &samples, const Vars &vars, Rng &r) {
  if (samples.empty() || vars.empty())
    return;
  if (vars.size() > 1 && r.p(0.4)) {
    auto left = static_cast<std::size_t>(r.ri(1, static_cast<long>(vars.size()) - 1));
    for (auto &s : samples)
      s.resize(left);
    return;
  }
  auto k = static_cast<std::size_t>(r.ri(0, static_cast<long>(vars.size()) - 1));
  auto &value = samples[static_cast<std::size_t>(r.ri(0, static_cast<long>(samples.size()) - 1))][k];
  value = vars[k]->size() + static_cast<std::size_t>(r.p(0.7) ? r.ri(0, 2) : r.ri(3, 100000));
}

template <typename V> std::string vec(const V &v) {
  std::ostringstream o;
  o.precision(9);
  o << "[";
  bool first = true;
  for (const auto &x : v) {
    o << (first ? "" : ",") << x;
    first = false;
  }
  o << "]";
  return o.str();
}


using CaseFn = void (*)(Ctx &);

inline int driver(int argc, char **argv, const char *prop, CaseFn fn) {
  std::uint64_t seed = 1;
  long begin = 0, end = 1, stride = 1;
  bool thorough = false, verbose = false;
  std::string progress, out;
  for (int k = 1; k + 1 < argc; k += 2) {
    std::string a = argv[k], v = argv[k + 1];
    if (a == "--seed")
      seed = std::strtoull(v.c_str(), nullptr, 10);
    else if (a == "--begin")
      begin = std::atol(v.c_str());
    else if (a == "--end")
      end = std::atol(v.c_str());
    else if (a == "--stride")
      stride = std::atol(v.c_str());
    else if (a == "--tier")
      thorough = (v == "thorough");
    else if (a == "--progress")
      progress = v;
    else if (a == "--out")
      out = v;
    else if (a == "--verbose")
      verbose = (v == "1");
  }
  int pfd = -1;
  if (!progress.empty())
    pfd = open(progress.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  Stats st;
  long done = 0;
  int harness_error = 0;
  std::vector<std::string> failures;
  for (long id = begin; id < end && failures.size() < 3; id += stride) {
    if (pfd >= 0) {
      char b[32];
      int n = std::snprintf(b, sizeof b, "%-20ld\n", id);
      if (pwrite(pfd, b, static_cast<std::size_t>(n), 0) < 0)
        std::perror("progress");
    }
    Ctx c{seed, id, thorough,
          Rng{mix(seed) ^ mix(hashStr(prop)) ^ mix(static_cast<std::uint64_t>(id) * 7919 + 13)},
          st, ""};
    std::string key, msg;
    try {
      fn(c);
    } catch (const Violation &v) {
      key = v.key;
      msg = v.msg;
    } catch (const HarnessError &h) {
      std::fprintf(stderr, "HARNESS-ERROR case=%ld %s\n%s\n", id, h.msg.c_str(), c.desc.c_str());
      harness_error = 1;
      break;
    } catch (const std::exception &e) {
      key = "unexpected-exception";
      msg = e.what();
    } catch (...) {
      key = "unexpected-exception";
      msg = "not a std::exception";
    }
    ++done;
    if (verbose)
      std::printf("case %ld: %s\n", id, c.desc.c_str());
    if (!key.empty()) {
      std::printf("FAIL case=%ld key=%s %s\n  %s\n", id, key.c_str(), msg.c_str(),
                  c.desc.substr(0, 4000).c_str());
      std::fflush(stdout);
      failures.push_back("{\"case\":" + std::to_string(id) + ",\"key\":" + jesc(key) +
                         ",\"msg\":" + jesc(msg) + ",\"desc\":" + jesc(c.desc.substr(0, 20000)) +
                         "}");
    }
    if (st.samples.size() < 2 && !c.desc.empty() && c.desc.size() < 3000)
      st.samples.push_back(cat("case ", id, ": ", c.desc));
  }
  if (!out.empty()) {
    std::ostringstream o;
    o.precision(17);
    o << "{\"done\":" << done << ",\"counters\":{";
    bool f = true;
    for (auto &[k, v] : st.cnt) {
      o << (f ? "" : ",") << jesc(k) << ":" << v;
      f = false;
    }
    o << "},\"maxima\":{";
    f = true;
    for (auto &[k, v] : st.mx) {
      o << (f ? "" : ",") << jesc(k) << ":" << (std::isfinite(v) ? v : 1e308);
      f = false;
    }
    o << "},\"distinct\":[";
    f = true;
    for (auto h : st.distinct) {
      o << (f ? "" : ",") << h;
      f = false;
    }
    o << "],\"samples\":[";
    f = true;
    for (auto &s : st.samples) {
      o << (f ? "" : ",") << jesc(s);
      f = false;
    }
    o << "],\"failures\":[";
    f = true;
    for (auto &s : failures) {
      o << (f ? "" : ",") << s;
      f = false;
    }
    o << "]}";
    std::FILE *fp = std::fopen(out.c_str(), "w");
    if (!fp) {
      std::perror("out");
      return 3;
    }
    auto str = o.str();
    std::fwrite(str.data(), 1, str.size(), fp);
    std::fclose(fp);
  }
  if (harness_error)
    return 3;
  return failures.empty() ? 0 : 1;
}
} // namespace vf

#define VF_MAIN(PROP, FN)                                                      \
  int main(int argc, char **argv) { return vf::driver(argc, argv, PROP, FN); }
