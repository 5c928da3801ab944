// Verification harness core: deterministic case scheduling, random generation, observation counters,
// violation reporting.  No dependency on the code under test.
#pragma once
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); } // inclusive
  bool p(double q) { return u() < q; }
  double sgn() { return p(0.5) ? 1.0 : -1.0; }
  double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
  double n()
  {
    double a = u(), b = u();
    if (a < 1e-300) a = 1e-300;
    return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
  }
  template <class T>
  const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

inline uint64_t hmix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
inline uint64_t hd(double d, double quantum = 0)
{
  if (quantum > 0) d = std::floor(d / quantum + 0.5);
  uint64_t b;
  std::memcpy(&b, &d, 8);
  return b;
}
inline uint64_t hs(const char *c)
{
  uint64_t h = 1469598103934665603ull;
  while (*c) h = (h ^ (unsigned char)*c++) * 1099511628211ull;
  return h;
}

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...)
{
  char buf[1600];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
inline std::string jesc(const std::string &s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else if (c < 127)
      o += c;
    else
      o += '?';
  }
  return o;
}

struct Violation {
  std::string key, detail, group;
  int idx;
};

struct Ctx {
  uint64_t seed{ 1 };
  bool thorough{ false };
  int shard{ 0 }, nshard{ 1 };
  std::string only_group;
  int only_idx{ -1 };
  std::string out;
  int progress_fd{ -1 };

  // observations
  std::map<std::string, uint64_t> counters;
  std::map<std::string, std::unordered_set<uint64_t>> distinct;
  std::vector<std::string> samples;
  std::vector<Violation> viols;
  std::map<std::string, int> viol_per_key;
  uint64_t checks{ 0 }, cases{ 0 }, inconclusive{ 0 };

  double slowest{ 0 };
  std::string slowest_case;
  std::string cur_group;
  int cur_idx{ -1 };
  uint64_t sig{ 0 }; //!< signature of everything compared in the current case

  int mult{ 1 }; //!< props.py: multiplies the number of cases
  int scale(int quick, int thorough_) const { return (thorough ? thorough_ : quick) * mult; }
  void ev(const std::string &name, uint64_t n = 1) { counters[name] += n; }
  void seen(const std::string &cls, uint64_t h) { distinct[cls].insert(h); }
  void sample(const std::string &s)
  {
    if (samples.size() < 8) samples.push_back(cur_group + ":" + std::to_string(cur_idx) + " " + s);
  }
  void violation(const std::string &key, const std::string &detail)
  {
    if (viol_per_key[key]++ < 4) viols.push_back({ key, detail, cur_group, cur_idx });
  }
  // core monitors
  bool ok(bool c, const char *key, const std::string &d = "")
  {
    checks++;
    sig = hmix(hmix(sig, hs(key)), hs(d.c_str()));
    if (!c) violation(key, d);
    return c;
  }
  bool eq(double a, double b, double rtol, double atol, const char *key, const std::string &d = "")
  {
    checks++;
    sig = hmix(sig, hd(a));
    const double tol = atol + rtol * std::max(std::fabs(a), std::fabs(b));
    if (std::fabs(a - b) <= tol) return true;
    violation(key, fmt("got %.17g expected %.17g (|diff| %.3g > tol %.3g) ", a, b, std::fabs(a - b), tol) + d);
    return false;
  }
  bool le(double a, double b, double slack, const char *key, const std::string &d = "")
  {
    checks++;
    sig = hmix(sig, hd(a));
    if (a <= b + slack) return true;
    violation(key, fmt("%.17g should be <= %.17g (slack %.3g) ", a, b, slack) + d);
    return false;
  }

  void mark()
  {
    if (progress_fd >= 0) {
      std::string s = cur_group + ":" + std::to_string(cur_idx) + "\n";
      s.resize(120, ' ');
      (void)!pwrite(progress_fd, s.data(), s.size(), 0);
    }
  }
  // run n cases of a group; the body gets its own generator, derived from (seed, group, index)
  template <class F>
  void run(const std::string &group, int n, F &&body)
  {
    if (!only_group.empty() && only_group != group) return;
    for (int k = 0; k < n; k++) {
      if (only_idx >= 0 && k != only_idx) continue;
      if (only_idx < 0 && (int)((k + hs(group.c_str())) % nshard) != shard) continue;
      cur_group = group;
      cur_idx = k;
      mark();
      Rng r(hmix(hmix(seed * 7919 + 13, hs(group.c_str())), (uint64_t)k));
      r.next();
      cases++;
      counters["cases:" + group]++;
      sig = 0;
      const auto checks0 = checks;
      const auto t0 = std::chrono::steady_clock::now();
      try {
        body(r, k);
      } catch (int e) {
        violation("unexpected-exception", fmt("int %d escaped in group %s", e, group.c_str()));
      } catch (const std::exception &e) {
        violation("unexpected-exception", fmt("%s: %s escaped in group %s", typeid(e).name(), e.what(), group.c_str()));
      } catch (const char *e) {
        violation("unexpected-exception", fmt("char* %s escaped in group %s", e, group.c_str()));
      } catch (...) {
        violation("unexpected-exception", "unknown exception escaped in group " + group);
      }
      const double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (el > slowest) slowest = el, slowest_case = group + ":" + std::to_string(k);
      if (checks > checks0) seen("nontrivial-case", hmix(hs(group.c_str()), sig));
    }
    cur_group = "";
    cur_idx = -1;
  }

  void write()
  {
    FILE *f = fopen(out.c_str(), "w");
    if (!f) {
      perror("out");
      _exit(3);
    }
    fprintf(f, "{\"cases\":%llu,\"checks\":%llu,\"inconclusive\":%llu,\"counters\":{", (unsigned long long)cases, (unsigned long long)checks, (unsigned long long)inconclusive);
    bool first = true;
    for (auto &[k, v] : counters) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v);
      first = false;
    }
    fprintf(f, "},\"distinct\":{");
    first = true;
    for (auto &[k, v] : distinct) {
      fprintf(f, "%s\"%s\":[", first ? "" : ",", jesc(k).c_str());
      first = false;
      bool f2 = true;
      size_t c = 0;
      for (auto h : v) {
        if (++c > 60000) break;
        fprintf(f, "%s%llu", f2 ? "" : ",", (unsigned long long)(h & 0xffffffffffffull));
        f2 = false;
      }
      fprintf(f, "]");
    }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto &s : samples) {
      fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str());
      first = false;
    }
    fprintf(f, "],\"violations\":[");
    first = true;
    for (auto &v : viols) {
      fprintf(f, "%s{\"key\":\"%s\",\"group\":\"%s\",\"idx\":%d,\"count\":%d,\"detail\":\"%s\"}", first ? "" : ",", jesc(v.key).c_str(), jesc(v.group).c_str(), v.idx, viol_per_key[v.key], jesc(v.detail).c_str());
      first = false;
    }
    fprintf(f, "],\"slowest\":%.3f,\"slowest_case\":\"%s\",\"complete\":true}\n", slowest, slowest_case.c_str());
    fclose(f);
  }
};

using Fn = void (*)(Ctx &);
inline std::map<std::string, Fn> &registry()
{
  static std::map<std::string, Fn> r;
  return r;
}
struct Reg {
  Reg(const char *n, Fn f) { registry()[n] = f; }
};
#define VH_PROP(name)                         \
  static void vh_run_##name(vh::Ctx &);       \
  static vh::Reg vh_reg_##name(#name, &vh_run_##name); \
  static void vh_run_##name([[maybe_unused]] vh::Ctx &cx)

} // namespace vh
