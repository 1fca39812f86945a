// Bounded contract checks: the contract (postcondition) of each function is evaluated against a
// sequential oracle on concrete inputs of the real code.  Used as the labelled bounded stand-in
// and as the search for a failing input when a proof obligation is not discharged.
#pragma once
// a harness may be compiled in parts (-DPART=k): shorter builds, the parts together make the whole
#ifndef PART
#define PART 0
#endif
#define IN_PART(k) (PART == 0 || PART == (k))
#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <unistd.h>
#include <execinfo.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define H_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define H_ASAN 1
#endif
#ifdef H_ASAN
#include <sanitizer/common_interface_defs.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace h {
using u64 = uint64_t; using i64 = int64_t; using u32 = uint32_t;

inline char cur[4096] = "startup";
inline char topic[256] = "";
inline std::atomic<u64> ncases{0}, progress{0};
inline std::mutex mu;
inline std::unordered_set<u64> sigs;
inline std::vector<std::string> samples;
inline u64 seed = 1;
inline bool thorough = false;
inline double budget = 60;       // seconds for the random part
inline std::chrono::steady_clock::time_point t0;

inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

struct Rng {
  u64 s;
  explicit Rng(u64 x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  u64 below(u64 n) { return n ? (next() >> 11) % n : 0; }
  u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
  bool coin(int n = 2) { return below(n) == 0; }
};

inline void die(const char* kind) {
  // async-signal tolerant enough: one write
  static std::atomic<int> once{0};
  if (once.exchange(1)) _exit(1);
  char b[6000];
  int n = snprintf(b, sizeof b, "\nHFAIL %s | %s | case: %s\n", topic, kind, cur);
  (void)!write(1, b, n);
}
inline void on_signal(int s) {
  char b[64]; snprintf(b, sizeof b, "signal %d (%s)", s, s == SIGSEGV ? "segmentation fault" : s == SIGFPE ? "arithmetic exception" : s == SIGABRT ? "abort/assertion" : s == SIGBUS ? "bus error" : s == SIGILL ? "illegal instruction" : "signal");
  die(b);
  _exit(1);
}
inline void on_death() { die("sanitizer report"); }

[[noreturn]] inline void fail(const char* fmt, ...) {
  char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  die(b);
  _exit(1);
}
#define CHECK(c, ...) do { if (!(c)) { ::h::fail(__VA_ARGS__); } } while (0)

// begins a case: description plus a signature that tells distinct cases apart
inline void begin(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(cur, sizeof cur, fmt, ap); va_end(ap);
  ncases++; progress++;
  u64 x = 1469598103934665603ull;
  for (char* p = cur; *p; ++p) x = (x ^ (unsigned char)*p) * 1099511628211ull;
  std::lock_guard<std::mutex> g(mu);
  bool fresh = sigs.insert(x).second;
  if (fresh && (samples.size() < 4 || (samples.size() < 12 && ncases % 97 == 0))) samples.push_back(std::string(topic) + ": " + cur);
}
// attach contents to the current case (appended to the description)
template <typename V> std::string show(const V& v, size_t lim = 24) {
  std::ostringstream o; o << "[";
  size_t k = 0;
  for (auto const& x : v) { if (k) o << ","; if (k++ >= lim) { o << ".."; break; } o << +x; }
  o << "]"; return o.str();
}

struct Test { const char* name; void (*fn)(); };
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char* n, void (*f)()) { tests().push_back({n, f}); } };
#define TEST(name) static void name(); static ::h::Reg reg_##name(#name, name); static void name()

inline bool more(double share) { return elapsed() < budget * share; }   // time left for this share of the budget

// sizes around the block and granularity thresholds of the library
inline std::vector<size_t> sizes(bool big = true) {
  std::vector<size_t> v;
  for (size_t i = 0; i <= 35; i++) v.push_back(i);
  for (size_t b : {63, 64, 127, 128, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 1999, 2000, 2001, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 8191, 8192, 8193, 10000}) v.push_back(b);
  if (big) for (size_t b : {16383, 16384, 16385, 20000, 32768, 50000, 65535, 65536, 65537, 100000, 131073, 262145}) v.push_back(b);
  if (big && thorough) for (size_t b : {500000, 1000000, 1048577, 3000000}) v.push_back(b);
  return v;
}

inline int run(int argc, char** argv) {
  t0 = std::chrono::steady_clock::now();
  if (const char* s = getenv("VERIF_SEED")) seed = strtoull(s, 0, 10);
  if (const char* s = getenv("VERIF_TIER")) thorough = !strcmp(s, "thorough");
  if (const char* s = getenv("H_BUDGET")) budget = atof(s);
  const char* only = getenv("H_ONLY");
#ifdef H_ASAN
  __sanitizer_set_death_callback(on_death);
  signal(SIGABRT, on_signal);
#else
  static char altstack[1 << 16];
  stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
#endif
  int stall = 90;
  if (const char* s = getenv("H_STALL")) stall = atoi(s);
  std::thread([stall] {
    u64 last = progress; int idle = 0;
    while (true) {
      std::this_thread::sleep_for(std::chrono::seconds(1));
      u64 p = progress;
      if (p != last) { last = p; idle = 0; }
      else if (++idle >= stall) { die("no progress (the operation does not terminate)"); _exit(1); }
    }
  }).detach();
  for (auto& t : tests()) {
    if (only && strcmp(only, t.name)) continue;
    snprintf(topic, sizeof topic, "%s", t.name);
    snprintf(cur, sizeof cur, "(start)");
    double a = elapsed();
    t.fn();
    progress++;
    if (getenv("H_VERBOSE")) printf("HTIME %s %.2f\n", t.name, elapsed() - a);
  }
  printf("HSTATS evaluations=%llu distinct=%zu tests=%zu seconds=%.2f\n", (unsigned long long)ncases.load(), sigs.size(), tests().size(), elapsed());
  for (auto& s : samples) printf("HSAMPLE %.300s\n", s.c_str());
  printf("HOK\n");
  fflush(stdout);
  _exit(0);
}

// ------------------------------------------------------------------ instrumented element
// every live object registers its address; any misuse of a lifetime is reported at once
struct Life {
  static constexpr size_t SH = 64;
  struct Shard { std::mutex m; std::unordered_map<const void*, int> live; };
  static Shard* sh() { static Shard* s = new Shard[SH]; return s; }
  static Shard& of(const void* p) { return sh()[(reinterpret_cast<uintptr_t>(p) >> 3) % SH]; }
  static void born(const void* p) { auto& s = of(p); std::lock_guard<std::mutex> g(s.m);
    if (!s.live.emplace(p, 1).second) fail("object constructed over a live object"); }
  static void dead(const void* p) { auto& s = of(p); std::lock_guard<std::mutex> g(s.m);
    if (!s.live.erase(p)) fail("destruction of an object that is not alive (destroyed twice or never constructed)"); }
  static void used(const void* p, const char* what) { auto& s = of(p); std::lock_guard<std::mutex> g(s.m);
    if (!s.live.count(p)) fail("%s of an object that is not alive", what); }
  static size_t count() { size_t n = 0; for (size_t i = 0; i < SH; i++) { std::lock_guard<std::mutex> g(sh()[i].m); n += sh()[i].live.size(); } return n; }
};
// copyable and movable, checks lifetimes; not trivially relocatable
struct Tracked {
  i64 v; i64 tag = 0;
  Tracked(i64 x = 0) : v(x) { Life::born(this); }
  Tracked(i64 x, i64 t) : v(x), tag(t) { Life::born(this); }
  Tracked(const Tracked& o) : v(o.v), tag(o.tag) { Life::used(&o, "copy"); Life::born(this); }
  Tracked(Tracked&& o) noexcept : v(o.v), tag(o.tag) { Life::used(&o, "move"); o.v = -999999; Life::born(this); }
  Tracked& operator=(const Tracked& o) { Life::used(this, "assignment to"); Life::used(&o, "copy"); v = o.v; tag = o.tag; return *this; }
  Tracked& operator=(Tracked&& o) noexcept { Life::used(this, "assignment to"); Life::used(&o, "move"); if (this != &o) { v = o.v; tag = o.tag; o.v = -999999; } return *this; }
  ~Tracked() { Life::dead(this); }
  bool operator<(const Tracked& o) const { Life::used(this, "read"); Life::used(&o, "read"); return v < o.v; }
  bool operator==(const Tracked& o) const { Life::used(this, "read"); Life::used(&o, "read"); return v == o.v; }
  bool operator!=(const Tracked& o) const { return !(*this == o); }
  i64 get() const { Life::used(this, "read"); return v; }
  i64 operator+() const { return v; }
};
// move only
struct MoveOnly {
  std::unique_ptr<i64> p;
  MoveOnly() = default;
  MoveOnly(i64 x) : p(new i64(x)) {}
  MoveOnly(MoveOnly&&) = default;
  MoveOnly& operator=(MoveOnly&&) = default;
  i64 get() const { return p ? *p : -1; }
  bool operator<(const MoveOnly& o) const { return get() < o.get(); }
};
struct LifeScope {
  size_t before; const char* what;
  LifeScope(const char* w = "") : before(Life::count()), what(w) {}
  void end() { size_t n = Life::count(); if (n != before) fail("%zd objects leaked or lost (%s)", (ssize_t)n - (ssize_t)before, what); }
};
template <typename A, typename B> bool same(const A& a, const B& b) {
  size_t n = a.size(); if (n != b.size()) return false;
  auto x = a.begin(); auto y = b.begin();
  for (size_t i = 0; i < n; i++, ++x, ++y) if (!(*x == *y)) return false;
  return true;
}
template <typename A, typename B> void expect_same(const A& a, const B& b, const char* what) {
  if (a.size() != b.size()) fail("%s: size %zu, expected %zu", what, (size_t)a.size(), (size_t)b.size());
  auto x = a.begin(); auto y = b.begin();
  for (size_t i = 0; i < b.size(); i++, ++x, ++y) if (!(*x == *y)) fail("%s: element %zu differs from the oracle", what, i);
}
}  // namespace h
using namespace h;
#define MAIN int main(int c, char** v) { return ::h::run(c, v); }
