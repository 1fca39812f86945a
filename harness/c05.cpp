#include "h.h"
#include <parlay/primitives.h>
#include <parlay/monoid.h>
using parlay::sequence;
// affine maps under composition: associative, not commutative, identity (1,0)
struct Aff { u64 a = 1, b = 0; bool operator==(const Aff& o) const { return a == o.a && b == o.b; } };
static Aff comp(const Aff& f, const Aff& g) { return Aff{f.a * g.a, g.a * f.b + g.b}; }
static auto affm = parlay::make_monoid([](Aff f, Aff g) { return comp(f, g); }, Aff{});
template <class T, class M> void all(const std::vector<T>& in, M m, const char* kind, bool tuned) {
  size_t n = in.size();
  std::vector<T> ex(n), inc(n); T r = m.identity;
  for (size_t i = 0; i < n; i++) { ex[i] = r; r = m(r, in[i]); inc[i] = r; }
  begin("%s n=%zu seed=%llu", kind, n, (unsigned long long)seed);
  sequence<T> s(in.begin(), in.end());
  CHECK(parlay::reduce(s, m) == r, "reduce differs from the left-to-right fold");
  CHECK(same(s, in), "reduce changed its input");
  { auto [p, t] = parlay::scan(s, m); CHECK(t == r, "scan total differs from the fold"); expect_same(p, ex, "scan"); }
  { auto p = parlay::scan_inclusive(s, m); expect_same(p, inc, "scan_inclusive"); }
  CHECK(same(s, in), "scan changed its input");
  { sequence<T> c = s; auto t = parlay::scan_inplace(c, m); CHECK(t == r, "scan_inplace total differs from the fold"); expect_same(c, ex, "scan_inplace"); }
  { sequence<T> c = s; auto t = parlay::scan_inclusive_inplace(c, m); CHECK(t == r, "scan_inclusive_inplace total differs from the fold"); expect_same(c, inc, "scan_inclusive_inplace"); }
  if (tuned) {
    // delayed input and explicit flags
    auto d = parlay::delayed_tabulate(n, [&](size_t i) -> T { return in[i]; });
    CHECK(parlay::reduce(d, m) == r, "reduce of a delayed sequence differs");
    { auto [p, t] = parlay::scan(d, m); CHECK(t == r, "scan total (delayed) differs"); expect_same(p, ex, "scan (delayed)"); }
    CHECK(parlay::internal::reduce(parlay::make_slice(s), m, parlay::fl_sequential) == r, "sequential reduce differs");
    { auto [p, t] = parlay::internal::scan(parlay::make_slice(s), m, parlay::fl_sequential); CHECK(t == r, "sequential scan total differs"); expect_same(p, ex, "sequential scan"); }
    // part of a range
    if (n > 3) { T q = m.identity; for (size_t i = 1; i < n - 1; i++) q = m(q, in[i]); CHECK(parlay::reduce(s.cut(1, n - 1), m) == q, "reduce of a slice differs"); }
  }
}
TEST(affine) {
  Rng g(seed);
  for (size_t n : sizes()) { std::vector<Aff> v(n); for (auto& x : v) { x.a = g.next() | 1; x.b = g.next(); } all(v, affm, "affine", true); }
}
TEST(strings) {
  Rng g(seed + 1);
  auto cat = parlay::make_monoid([](std::string a, const std::string& b) { return a + b; }, std::string());
  for (size_t n : {0, 1, 2, 5, 100, 1023, 1024, 1025, 2048, 2049, 3100}) { std::vector<std::string> v(n); for (auto& x : v) x = std::string(g.below(3), 'a' + g.below(26)); all(v, cat, "concat", false); }
}
TEST(longs_plus) {
  Rng g(seed + 2);
  for (size_t n : sizes()) { std::vector<i64> v(n); for (auto& x : v) x = (i64)g.below(2001) - 1000; all(v, parlay::plus<i64>(), "plus", n < 5000);
    sequence<i64> s(v.begin(), v.end()); i64 t = 0; for (auto x : v) t += x;
    CHECK(parlay::reduce(s) == t, "default reduce"); CHECK(parlay::scan(s).second == t, "default scan");
  }
}
TEST(maxima) {
  Rng g(seed + 3);
  for (size_t n : sizes(false)) { std::vector<int> v(n); for (auto& x : v) x = (int)g.next(); all(v, parlay::maximum<int>(), "max", false); all(v, parlay::minimum<int>(), "min", false); }
  // the last non-negative value wins: associative, not commutative
  auto last = parlay::make_monoid([](int a, int b) { return b >= 0 ? b : a; }, -1);
  for (size_t n : sizes(false)) { std::vector<int> v(n); for (auto& x : v) x = g.coin(20) ? (int)g.below(1000) : -1; all(v, last, "last", true); }
}
TEST(tracked) {
  Rng g(seed + 4);
  auto m = parlay::make_monoid([](const Tracked& a, const Tracked& b) { return Tracked(a.get() * 3 + b.get(), 0); }, Tracked(0));
  (void)m;
  auto add = parlay::make_monoid([](const Tracked& a, const Tracked& b) { return Tracked(a.get() + b.get()); }, Tracked(0));
  for (size_t n : {0, 1, 2, 1000, 1025, 2100, 5000}) {
    begin("lifetimes n=%zu", n);
    LifeScope ls("reduce/scan");
    { sequence<Tracked> s = parlay::tabulate(n, [](size_t i) { return Tracked((i64)i); });
      Tracked r = parlay::reduce(s, add); CHECK(r.get() == (i64)n * ((i64)n - 1) / 2, "reduce of tracked objects");
      auto [p, t] = parlay::scan(s, add); CHECK(t.get() == r.get(), "scan total");
      for (size_t i = 0; i < n; i++) CHECK(p[i].get() == (i64)i * ((i64)i - 1) / 2, "scan element %zu", i);
      parlay::scan_inclusive_inplace(s, add); if (n) CHECK(s[n - 1].get() == r.get(), "inclusive in place"); }
    ls.end();
  }
}
TEST(random_sizes) {
  Rng g(seed + 5);
  while (more(1.0)) { size_t n = g.coin() ? g.below(3000) : g.below(60000); std::vector<Aff> v(n); for (auto& x : v) { x.a = g.next(); x.b = g.next(); } all(v, affm, "affine", true); }
}
TEST(very_long) {
  // more blocks than one block can hold: past 2^24 elements
  for (size_t n : {size_t(1) << 24, (size_t(1) << 24) + 4097, (size_t(1) << 25) + 1}) {
    begin("very long n=%zu", n);
    auto f = [](size_t i) -> u32 { return u32((i * 2654435761u) >> 7) & 1023; };
    auto d = parlay::delayed_tabulate(n, f);
    u32 r = 0; for (size_t i = 0; i < n; i++) r += f(i);
    CHECK(parlay::reduce(d, parlay::plus<u32>()) == r, "reduce of a very long sequence");
    sequence<u32> s = parlay::tabulate(n, f);
    CHECK(parlay::reduce(s) == r, "reduce of a very long sequence");
    { auto [p, t] = parlay::scan(s); CHECK(t == r, "scan total of a very long sequence"); CHECK(p.size() == n, "scan size"); u32 a = 0; for (size_t i = 0; i < n; i++) { CHECK(p[i] == a, "scan of a very long sequence at %zu", i); a += f(i); } }
    { auto p = parlay::scan_inclusive(d, parlay::plus<u32>()); CHECK(p.size() == n, "scan size"); u32 a = 0; for (size_t i = 0; i < n; i++) { a += f(i); CHECK(p[i] == a, "scan_inclusive of a very long sequence at %zu", i); } }
    { u32 t = parlay::scan_inplace(s); CHECK(t == r, "scan_inplace total of a very long sequence"); u32 a = 0; for (size_t i = 0; i < n; i++) { CHECK(s[i] == a, "scan_inplace of a very long sequence at %zu", i); a += f(i); } }
    if (h::budget < 15) break;
  }
}
MAIN
