#include "h.h"
#include <parlay/primitives.h>
using parlay::sequence;
template <class T> static void one(const std::vector<T>& in, const std::vector<char>& fl, const char* kind) {
  size_t n = in.size();
  begin("%s n=%zu flags=%s seed=%llu", kind, n, show(fl, 40).c_str(), (unsigned long long)seed);
  std::vector<T> ex; std::vector<size_t> ix;
  for (size_t i = 0; i < n; i++) if (fl[i]) { ex.push_back(in[i]); ix.push_back(i); }
  sequence<T> s(in.begin(), in.end());
  sequence<bool> b(n); for (size_t i = 0; i < n; i++) b[i] = fl[i];
  expect_same(parlay::pack(s, b), ex, "pack");
  expect_same(parlay::pack_index(b), ix, "pack_index");
  expect_same(parlay::pack_index<unsigned>(b), ix, "pack_index<unsigned>");
  auto db = parlay::delayed_tabulate(n, [&](size_t i) { return (bool)fl[i]; });
  expect_same(parlay::pack(s, db), ex, "pack with delayed flags");
  CHECK(same(s, in), "pack changed its input");
  // into a prepared range: nothing beyond the count may be touched
  { sequence<T> out(n + 3, T(77)); size_t m = parlay::pack_into(s, b, out.cut(0, n)); CHECK(m == ex.size(), "pack_into count %zu expected %zu", m, ex.size());
    for (size_t i = 0; i < m; i++) CHECK(out[i] == ex[i], "pack_into element %zu", i); for (size_t i = m; i < n + 3; i++) CHECK(out[i] == T(77), "pack_into wrote element %zu past the result", i); }
  // filter by a predicate on position: use pairs
  sequence<std::pair<T, size_t>> ps(n); for (size_t i = 0; i < n; i++) ps[i] = {in[i], i};
  std::vector<std::pair<T, size_t>> pe; for (size_t i = 0; i < n; i++) if (fl[i]) pe.push_back({in[i], i});
  auto pr = [&](const std::pair<T, size_t>& p) { return (bool)fl[p.second]; };
  expect_same(parlay::filter(ps, pr), pe, "filter");
  expect_same(parlay::remove_if(ps, [&](const std::pair<T, size_t>& p) { return !fl[p.second]; }), pe, "remove_if");
  { sequence<std::pair<T, size_t>> out(n + 2, {T(77), 7}); size_t m = parlay::filter_into(ps, out.cut(0, n), pr); CHECK(m == pe.size(), "filter_into count");
    for (size_t i = 0; i < m; i++) CHECK(out[i] == pe[i], "filter_into element %zu", i); for (size_t i = m; i < n + 2; i++) CHECK(out[i].second == 7, "filter_into wrote past the result"); }
  { auto r = parlay::internal::pack(parlay::make_slice(s), parlay::make_slice(b), parlay::fl_sequential); expect_same(r, ex, "sequential pack"); }
}
TEST(small_exhaustive) {
  for (size_t n = 0; n <= 10; n++) for (unsigned m = 0; m < (1u << n); m++) { std::vector<int> v(n); std::vector<char> f(n); for (size_t i = 0; i < n; i++) { v[i] = i * 3; f[i] = m >> i & 1; } if (n < 7 || m % 5 == 0) one(v, f, "exhaustive"); }
}
TEST(densities) {
  Rng g(seed);
  for (size_t n : sizes()) for (int d : {0, 1, 2, 100}) { std::vector<u64> v(n); std::vector<char> f(n); for (size_t i = 0; i < n; i++) { v[i] = g.next(); f[i] = d == 0 ? 0 : d == 1 ? 1 : g.below(d) == 0; } if (n < 70000 || d == 2) one(v, f, "density"); }
}
TEST(block_edges) {
  Rng g(seed + 1);
  for (size_t n : {2047, 2048, 2049, 3000, 4096, 5000}) for (int r = 0; r < 6; r++) { std::vector<int> v(n); std::vector<char> f(n, r % 2); for (size_t i = 0; i < n; i++) v[i] = i; 
    for (size_t p : {size_t(0), size_t(1023), size_t(1024), size_t(1025), size_t(2047), size_t(2048), n - 1}) if (p < n && g.coin()) f[p] = !f[p]; one(v, f, "block edges"); }
}
TEST(unique_remove) {
  Rng g(seed + 2);
  for (size_t n : sizes()) for (int k : {1, 2, 5, 1000}) {
    std::vector<int> v(n); for (auto& x : v) x = g.below(k); begin("unique/remove n=%zu values=%d", n, k);
    sequence<int> s(v.begin(), v.end());
    std::vector<int> u(v); u.erase(std::unique(u.begin(), u.end()), u.end()); expect_same(parlay::unique(s), u, "unique");
    std::vector<int> w(v); w.erase(std::remove(w.begin(), w.end(), 1), w.end()); expect_same(parlay::remove(s, 1), w, "remove");
    // a relation that is not symmetric
    std::vector<int> q; for (size_t i = 0; i < n; i++) if (i == 0 || !(v[i] > v[i - 1])) q.push_back(v[i]);
    expect_same(parlay::unique(s, [](int a, int b) { return a > b; }), q, "unique with a relation");
    std::vector<int> mm; for (int x : v) if (x % 2) mm.push_back(x * 2);
    expect_same(parlay::map_maybe(s, [](int x) -> std::optional<int> { return x % 2 ? std::optional<int>(x * 2) : std::nullopt; }), mm, "map_maybe");
    CHECK(same(s, v), "input changed");
  }
}
TEST(predicate_once_per_pass) {
  Rng g(seed + 3);
  for (size_t n : {0, 1, 100, 2049, 10000}) { begin("strings n=%zu", n); std::vector<std::string> v(n); for (auto& x : v) x = std::string(g.below(40), 'a' + g.below(3));
    sequence<std::string> s(v.begin(), v.end()); auto p = [](const std::string& x) { return x.size() % 3 == 1; }; std::vector<std::string> e; for (auto& x : v) if (p(x)) e.push_back(x);
    expect_same(parlay::filter(s, p), e, "filter strings"); CHECK(same(s, v), "filter changed its input"); 
    sequence<std::string> c = s; auto m = parlay::filter(std::move(c), p); expect_same(m, e, "filter of a temporary"); }
}
TEST(lifetimes) {
  for (size_t n : {0, 1, 5, 1024, 2049, 6000}) { begin("lifetimes n=%zu", n); LifeScope ls("pack/filter");
    { sequence<Tracked> s = parlay::tabulate(n, [](size_t i) { return Tracked(i); }); auto r = parlay::filter(s, [](const Tracked& t) { return t.get() % 3 == 0; });
      CHECK(r.size() == (n + 2) / 3, "size"); for (size_t i = 0; i < r.size(); i++) CHECK(r[i].get() == (i64)i * 3, "element"); 
      auto b = parlay::tabulate(n, [](size_t i) { return i % 2 == 0; }); auto q = parlay::pack(s, b); CHECK(q.size() == (n + 1) / 2, "size"); }
    ls.end(); }
}
TEST(random_fill) {
  Rng g(seed + 9);
  while (more(1.0)) { size_t n = g.coin() ? g.below(5000) : g.below(40000); int d = 1 + g.below(6); std::vector<u64> v(n); std::vector<char> f(n); for (size_t i = 0; i < n; i++) { v[i] = g.next(); f[i] = g.below(d) == 0; } one(v, f, "random"); }
}
TEST(predicates_of_other_types) {
  // predicates and flags that are not bool: any non-zero value selects
  Rng g(seed + 5);
  struct Truth { int v; explicit operator bool() const { return v != 0; } };
  for (size_t n : {0, 1, 7, 100, 1024, 2048, 2049, 3000, 5000, 20000}) {
    begin("predicate types n=%zu", n);
    std::vector<u32> v(n); for (auto& x : v) x = (u32)g.next() >> g.below(33) % 32;
    sequence<u32> s(v.begin(), v.end());
    auto go = [&](auto pred, const char* w) {
      std::vector<u32> e, q; for (u32 x : v) if ((bool)pred(x)) e.push_back(x); else q.push_back(x);
      expect_same(parlay::filter(s, pred), e, w);
      sequence<u32> out(n + 2, 77u); size_t m = parlay::filter_into_uninitialized(s, out.cut(0, n), pred); CHECK(m == e.size(), "%s into: count %zu", w, m);
      for (size_t i = 0; i < n + 2; i++) CHECK(out[i] == (i < m ? e[i] : 77u), "%s into: element %zu", w, i);
      CHECK(same(s, v), "input changed");
    };
    go([](u32 x) { return x & 6; }, "filter by x & 6");
    go([](u32 x) { return (int)x % 5; }, "filter by a signed remainder");
    go([](u32 x) -> unsigned char { return x & 255; }, "filter by a byte");
    go([](u32 x) -> u64 { return u64(x & 3) << 40; }, "filter by a wide value");
    go([](u32 x) -> double { return (x & 3) * 0.25; }, "filter by a fraction");
#ifndef BASIC
    go([](u32 x) -> const char* { return x & 2 ? "y" : nullptr; }, "filter by a pointer");
#endif
    { std::vector<int> fl(n); for (auto& x : fl) x = g.coin() ? 0 : (int)g.next(); sequence<int> b(fl.begin(), fl.end()); std::vector<u32> e; std::vector<size_t> ix; for (size_t i = 0; i < n; i++) if (fl[i]) { e.push_back(v[i]); ix.push_back(i); }
      expect_same(parlay::pack(s, b), e, "pack by integer flags"); expect_same(parlay::pack_index(b), ix, "pack_index of integer flags"); 
      expect_same(parlay::internal::pack(parlay::make_slice(s), parlay::make_slice(b), parlay::fl_sequential), e, "sequential pack by integer flags"); }
  }
}
TEST(very_long) {
  size_t n = (size_t(1) << 24) + 3001; begin("very long n=%zu", n);
  auto keep = [](size_t i) { return (i * 2654435761u >> 5 & 7) < 3; };
  auto s = parlay::tabulate(n, [](size_t i) { return (u32)i; });
  auto r = parlay::filter(s, keep); size_t k = 0; for (size_t i = 0; i < n; i++) if (keep(i)) { CHECK(k < r.size() && r[k] == i, "filter of a very long sequence at %zu", k); k++; } CHECK(k == r.size(), "filter count");
  auto f = parlay::tabulate(n, [&](size_t i) { return keep(i); });
  auto q = parlay::pack_index<u32>(f); CHECK(same(q, r), "pack_index of a very long sequence"); 
}
MAIN
