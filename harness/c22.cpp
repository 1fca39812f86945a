#include "h.h"
#include <parlay/primitives.h>
struct E { int k; int id; };
static auto lt = [](const E& a, const E& b) { return a.k < b.k; };
static std::vector<E> gen(size_t n, int kind, Rng& g) { std::vector<E> v(n); for (size_t i = 0; i < n; i++) { int k = kind == 0 ? (int)g.below(1000000) : kind == 1 ? (int)g.below(3) : kind == 2 ? 5 : kind == 3 ? (int)i : kind == 4 ? (int)(n - i) : kind == 5 ? (int)(i / 7) : (int)(i % 11); v[i] = {k, (int)i}; } return v; }
static void order(size_t n, int kind, u64 sd) {
  Rng g(sd); auto v = gen(n, kind, g); begin("order statistics of %zu elements, kind %d, seed %llu", n, kind, (unsigned long long)sd);
  parlay::sequence<E> s(v.begin(), v.end()); 
  auto mn = parlay::min_element(s, lt) - s.begin(), mx = parlay::max_element(s, lt) - s.begin();
  CHECK(mn == std::min_element(v.begin(), v.end(), lt) - v.begin(), "min_element at %zd", mn); CHECK(mx == std::max_element(v.begin(), v.end(), lt) - v.begin(), "max_element at %zd", mx);
  auto [a, b] = parlay::minmax_element(s, lt); CHECK(a - s.begin() == mn && b - s.begin() == mx, "minmax_element at %zd and %zd", a - s.begin(), b - s.begin());
  std::vector<int> ks; for (auto& e : v) ks.push_back(e.k); CHECK(parlay::min_element(ks) - ks.begin() == mn && parlay::max_element(ks) - ks.begin() == mx, "default order");
  auto m2 = parlay::minmax_element(ks); CHECK(m2.first - ks.begin() == mn && m2.second - ks.begin() == mx, "default order, minmax");
  auto w = v; std::stable_sort(w.begin(), w.end(), lt); std::vector<size_t> rk(n); for (size_t i = 0; i < n; i++) rk[w[i].id] = i;
  auto r = parlay::rank(s, lt); expect_same(r, rk, "rank"); if (n < 65000) { auto r2 = parlay::rank<unsigned short>(s, lt); expect_same(r2, rk, "rank, 16 bit"); }
  if (n) for (int t = 0; t < 6; t++) { size_t k = t == 0 ? 0 : t == 1 ? n - 1 : g.below(n); auto it = parlay::kth_smallest(s, k, lt); CHECK(it >= s.begin() && it < s.end() && it->k == w[k].k, "kth_smallest(%zu)", k); auto c = parlay::kth_smallest_copy(ks, k); CHECK(c == w[k].k, "kth_smallest_copy(%zu)", k); auto it2 = parlay::kth_smallest(s, k, [](const E& a, const E& b) { return a.k > b.k; }); CHECK(it2->k == w[n - 1 - k].k, "kth_smallest, descending"); }
  for (size_t i = 0; i < n; i++) CHECK(s[i].id == (int)i, "the input changed");
}
static void tests(size_t n, u64 sd) {
  Rng g(sd); begin("is_sorted and is_partitioned of %zu elements, seed %llu", n, (unsigned long long)sd); 
  std::vector<E> v(n); for (size_t i = 0; i < n; i++) v[i] = {(int)(i / (1 + g.below(3))) , (int)i}; std::stable_sort(v.begin(), v.end(), lt); int nb = g.below(3); for (int i = 0; i < nb && n; i++) { size_t p = g.coin(3) ? (g.coin() ? 0 : n - 1) : g.below(n); v[p].k = g.coin() ? -1 : (int)n + 1; }
  parlay::sequence<E> s(v.begin(), v.end()); CHECK(parlay::is_sorted(s, lt) == std::is_sorted(v.begin(), v.end(), lt), "is_sorted"); CHECK(parlay::is_sorted_until(s, lt) - s.begin() == std::is_sorted_until(v.begin(), v.end(), lt) - v.begin(), "is_sorted_until");
  parlay::sequence<int> q; for (auto& e : v) q.push_back(e.k); CHECK(parlay::is_sorted(q) == std::is_sorted(q.begin(), q.end()), "is_sorted"); CHECK(parlay::is_sorted_until(q) == std::is_sorted_until(q.begin(), q.end()), "is_sorted_until");
  size_t c = g.below(n + 1); std::vector<char> p(n); for (size_t i = 0; i < n; i++) p[i] = i < c; if (n && g.coin()) p[g.coin() ? n - 1 : g.below(n)] ^= 1; if (n && g.coin(4)) p[0] ^= 1; CHECK(parlay::is_partitioned(p, [](char x) { return x; }) == std::is_partitioned(p.begin(), p.end(), [](char x) { return x; }), "is_partitioned");
}
TEST(orders) { Rng g(seed); for (size_t n : sizes()) for (int k = 0; k < 7; k++) { if (n > 70000 && k > 1) continue; order(n, k, g.next()); } }
TEST(predicates) { Rng g(seed + 1); for (size_t n : sizes()) for (int r = 0; r < 6; r++) tests(n, g.next()); }
TEST(random_fill) { Rng g(seed + 2); while (more(1.0)) { size_t n = g.below(g.coin() ? 20 : g.coin() ? 3000 : 60000); order(n, g.below(7), g.next()); tests(n, g.next()); } }
MAIN
