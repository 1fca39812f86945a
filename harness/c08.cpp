#include "h.h"
#include <parlay/primitives.h>
#include <parlay/internal/binary_search.h>
using parlay::sequence;
struct KV { int k; int id; bool operator==(const KV& o) const { return k == o.k && id == o.id; } };
static auto kless = [](const KV& a, const KV& b) { return a.k < b.k; };
static void bsearch(const std::vector<int>& v, int key) {
  begin("binary_search n=%zu key=%d %s", v.size(), key, v.size() <= 30 ? show(v, 40).c_str() : "");
  sequence<int> s(v.begin(), v.end());
  size_t e = std::lower_bound(v.begin(), v.end(), key) - v.begin();
  CHECK(parlay::internal::binary_search(parlay::make_slice(s), key, std::less<>()) == e, "binary_search (value first)");
  auto d = parlay::delayed_tabulate(v.size(), [&](size_t i) { CHECK(i < v.size(), "read outside the range at %zu", i); return v[i]; });
  CHECK(parlay::internal::binary_search(d, key, std::less<>()) == e, "binary_search guarded");
  CHECK(parlay::internal::binary_search(d, [&](int x) { return x < key; }) == e, "binary_search with a predicate");
  CHECK(parlay::internal::linear_search(d, [&](int x) { return x < key; }) == e, "linear_search");
}
static void mrg(std::vector<int> a, std::vector<int> b, const char* kind) {
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  begin("%s merge n=%zu m=%zu a=%s b=%s", kind, a.size(), b.size(), a.size() <= 20 ? show(a).c_str() : "", b.size() <= 20 ? show(b).c_str() : "");
  std::vector<KV> x(a.size()), y(b.size()), e; for (size_t i = 0; i < a.size(); i++) x[i] = {a[i], (int)i}; for (size_t i = 0; i < b.size(); i++) y[i] = {b[i], 1000000 + (int)i};
  std::merge(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(e), kless);
  sequence<KV> X(x.begin(), x.end()), Y(y.begin(), y.end());
  expect_same(parlay::merge(X, Y, kless), e, "merge"); CHECK(same(X, x) && same(Y, y), "merge changed its input");
  { auto r = sequence<KV>(e.size() + 2, KV{-7, -7}); parlay::internal::merge_into<parlay::copy_assign_tag>(parlay::make_slice(X), parlay::make_slice(Y), r.cut(1, e.size() + 1), kless);
    CHECK(r[0].k == -7 && r[e.size() + 1].k == -7, "merge_into wrote outside"); for (size_t i = 0; i < e.size(); i++) CHECK(r[i + 1] == e[i], "merge_into element %zu", i); }
  { auto r = sequence<KV>(e.size() + 2, KV{-7, -7}); parlay::internal::merge_into<parlay::copy_assign_tag>(parlay::make_slice(X), parlay::make_slice(Y), r.cut(1, e.size() + 1), kless, true);
    for (size_t i = 0; i < e.size(); i++) CHECK(r[i + 1] == e[i], "conservative merge_into element %zu", i); }
}
TEST(search_exhaustive) {
  for (size_t n = 0; n <= 40; n++) { std::vector<int> v(n); for (size_t i = 0; i < n; i++) v[i] = 2 * (i / 2) + 1; for (int k = -1; k <= (int)n + 2; k++) bsearch(v, k); std::vector<int> c(n, 4); for (int k : {3, 4, 5}) bsearch(c, k); }
  Rng g(seed); for (size_t n : sizes()) { std::vector<int> v(n); for (auto& x : v) x = g.below(n + 1); std::sort(v.begin(), v.end()); for (int r = 0; r < 12; r++) bsearch(v, r == 0 ? -1 : r == 1 ? (int)n + 1 : r == 2 && n ? v[0] : r == 3 && n ? v[n - 1] : (int)g.below(n + 1)); }
}
TEST(merge_small) {
  for (size_t n = 0; n <= 4; n++) for (size_t m = 0; m <= 4; m++) { size_t t = 1, u = 1; for (size_t i = 0; i < n; i++) t *= 3; for (size_t i = 0; i < m; i++) u *= 3; for (size_t p = 0; p < t; p++) for (size_t q = 0; q < u; q += 1 + (n + m > 6)) { std::vector<int> a(n), b(m); size_t x = p; for (auto& e : a) { e = x % 3; x /= 3; } x = q; for (auto& e : b) { e = x % 3; x /= 3; } mrg(a, b, "exhaustive"); } }
}
TEST(merge_sizes) {
  Rng g(seed + 1);
  size_t S[] = {0, 1, 2, 15, 16, 17, 100, 999, 1000, 1023, 1024, 1999, 2000, 2001, 2048, 4000, 4001, 5000, 20000};
  for (size_t n : S) for (size_t m : S) for (int k : {1, 3, 1000000}) { if (k != 3 && (n + m) % 3) continue; std::vector<int> a(n), b(m); for (auto& x : a) x = g.below(k); for (auto& x : b) x = g.below(k); mrg(a, b, "sizes"); }
  for (size_t n : {3000, 8000}) { std::vector<int> a(n, 5), b(n, 5); mrg(a, b, "all equal"); for (auto& x : b) x = 4; mrg(a, b, "disjoint"); for (auto& x : b) x = 6; mrg(a, b, "disjoint"); }
}
TEST(lifetimes) {
  for (size_t n : {0, 1, 10, 1500, 5000}) { begin("lifetimes n=%zu", n); LifeScope ls("merge");
    { auto a = parlay::tabulate(n, [](size_t i) { return Tracked(2 * i); }), b = parlay::tabulate(n + 3, [](size_t i) { return Tracked(2 * i + 1); }); auto r = parlay::merge(a, b); CHECK(r.size() == 2 * n + 3, "size"); for (size_t i = 1; i < r.size(); i++) CHECK(r[i - 1].get() <= r[i].get(), "order"); for (size_t i = 0; i < n; i++) CHECK(a[i].get() == (i64)(2 * i), "input changed"); }
    ls.end(); }
}
TEST(random_fill) {
  Rng g(seed + 2);
  while (more(1.0)) { std::vector<int> a(g.coin() ? g.below(40) : g.below(9000)), b(g.coin() ? g.below(40) : g.below(9000)); int k = 1 + g.below(g.coin() ? 4 : 10000); for (auto& x : a) x = g.below(k); for (auto& x : b) x = g.below(k); mrg(a, b, "random"); }
}
MAIN
