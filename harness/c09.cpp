#include "h.h"
#include <parlay/primitives.h>
#include <parlay/internal/merge_sort.h>
#include <parlay/internal/quicksort.h>
#include <parlay/internal/bucket_sort.h>
using parlay::sequence;
struct KV { u32 k; u32 i; bool operator<(const KV& o) const { return k < o.k; } bool operator==(const KV& o) const { return k == o.k && i == o.i; } };
static std::vector<u32> keys(Rng& g, size_t n, int shape) {
  std::vector<u32> v(n);
  for (size_t i = 0; i < n; i++) switch (shape) {
    case 0: v[i] = g.next(); break; case 1: v[i] = i; break; case 2: v[i] = n - i; break; case 3: v[i] = 7; break; case 4: v[i] = g.below(2); break;
    case 5: v[i] = g.below(10); break; case 6: v[i] = (i * 2654435761u) >> 8; break; case 7: v[i] = i % 3 ? 5 : (u32)g.below(100); break;
    case 8: v[i] = i < n / 2 ? i : n - i; break; case 9: v[i] = g.below(20) ? 1000 + (u32)i : (u32)g.next(); break; case 10: v[i] = g.below((u64)std::sqrt((double)n) + 2); break; default: v[i] = i == n / 2 ? 0 : 1; }
  return v;
}
constexpr int SHAPES = 12;
template <class S> static void chk(const S& r, const std::vector<KV>& st, bool stable, const char* what) {
  CHECK(r.size() == st.size(), "%s: size %zu expected %zu", what, (size_t)r.size(), st.size());
  size_t n = st.size();
  if (stable) { for (size_t i = 0; i < n; i++) CHECK(r[i] == st[i], "%s: element %zu is (%u,%u), expected (%u,%u)", what, i, r[i].k, r[i].i, st[i].k, st[i].i); return; }
  std::vector<bool> seen(n, false);
  for (size_t i = 0; i < n; i++) { CHECK(r[i].k == st[i].k, "%s: key %zu is %u, expected %u", what, i, r[i].k, st[i].k); CHECK(r[i].i < n && !seen[r[i].i], "%s: not a permutation (element %zu)", what, i); seen[r[i].i] = true; }
}
static void one(Rng& g, size_t n, int shape) {
  begin("n=%zu shape=%d seed=%llu", n, shape, (unsigned long long)seed);
  auto ks = keys(g, n, shape); std::vector<KV> v(n); for (size_t i = 0; i < n; i++) v[i] = {ks[i], (u32)i};
  bool desc = g.coin(4);
  auto less = [desc](const KV& a, const KV& b) { return desc ? b.k < a.k : a.k < b.k; };
  auto st = v; std::stable_sort(st.begin(), st.end(), less);
  sequence<KV> s(v.begin(), v.end());
  chk(parlay::sort(s, less), st, false, "sort"); CHECK(same(s, v), "sort changed its input");
  chk(parlay::stable_sort(s, less), st, true, "stable_sort"); CHECK(same(s, v), "stable_sort changed its input");
  { auto c = s; parlay::sort_inplace(c, less); chk(c, st, false, "sort_inplace"); }
  { auto c = s; parlay::stable_sort_inplace(c, less); chk(c, st, true, "stable_sort_inplace"); }
  { auto r = parlay::internal::merge_sort(parlay::make_slice(s), less); chk(r, st, true, "merge_sort"); }
  { auto c = s; parlay::internal::merge_sort_inplace(parlay::make_slice(c), less); chk(c, st, true, "merge_sort_inplace"); }
  { auto c = s; parlay::internal::quicksort(parlay::make_slice(c), less); chk(c, st, false, "quicksort"); }
  { auto c = s; parlay::internal::bucket_sort(parlay::make_slice(c), less); chk(c, st, false, "bucket_sort"); }
  { auto ds = parlay::delayed_tabulate(n, [&](size_t i) { return v[i]; }); chk(parlay::sort(ds, less), st, false, "sort of a delayed sequence"); chk(parlay::stable_sort(ds, less), st, true, "stable_sort of a delayed sequence"); }
  if (n < 3000) { auto c = s; parlay::internal::insertion_sort(c.begin(), n, less); chk(c, st, false, "insertion_sort"); }
  std::vector<u32> u; { auto x = ks; std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); u = x; }
  expect_same(parlay::remove_duplicates_ordered(sequence<u32>(ks.begin(), ks.end())), u, "remove_duplicates_ordered");
}
TEST(small_exhaustive) {
  for (size_t n = 0; n <= 6; n++) { size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= 3;
    for (size_t m = 0; m < tot; m++) { std::vector<KV> v(n); size_t x = m; for (size_t i = 0; i < n; i++) { v[i] = {(u32)(x % 3), (u32)i}; x /= 3; } 
      begin("exhaustive n=%zu code=%zu", n, m); auto st = v; std::stable_sort(st.begin(), st.end()); sequence<KV> s(v.begin(), v.end());
      chk(parlay::sort(s), st, false, "sort"); chk(parlay::stable_sort(s), st, true, "stable_sort"); auto c = s; parlay::sort_inplace(c); chk(c, st, false, "sort_inplace"); c = s; parlay::stable_sort_inplace(c); chk(c, st, true, "stable_sort_inplace"); c = s; parlay::internal::quicksort(parlay::make_slice(c), std::less<>()); chk(c, st, false, "quicksort"); } }
}
TEST(shapes) { Rng g(seed); for (size_t n : sizes()) for (int sh = 0; sh < SHAPES; sh++) { if (n > 11000 && ((n + sh) % 5) && !thorough) continue; one(g, n, sh); } }
TEST(strings) {
  Rng g(seed + 2);
  for (size_t n : {0, 1, 2, 24, 25, 300, 2000, 20000, 60000}) { begin("strings n=%zu", n); std::vector<std::string> v(n); for (auto& x : v) x = std::string(g.below(30), 'a' + g.below(3)) + std::to_string(g.below(50)); sequence<std::string> s(v.begin(), v.end());
    auto e = v; std::sort(e.begin(), e.end()); expect_same(parlay::sort(s), e, "sort"); CHECK(same(s, v), "input"); expect_same(parlay::stable_sort(s), e, "stable_sort"); auto c = s; parlay::sort_inplace(c); expect_same(c, e, "sort_inplace"); c = s; parlay::stable_sort_inplace(c); expect_same(c, e, "stable_sort_inplace"); }
}
TEST(move_only) {
  Rng g(seed + 3);
  for (size_t n : {0, 1, 5, 100, 3000, 20000}) { begin("move-only n=%zu", n); std::vector<i64> v(n); for (auto& x : v) x = g.below(n + 1); auto mk = [&] { return parlay::tabulate(n, [&](size_t i) { return MoveOnly(v[i]); }); }; auto e = v; std::sort(e.begin(), e.end());
    auto a = mk(); parlay::sort_inplace(a); for (size_t i = 0; i < n; i++) CHECK(a[i].get() == e[i], "sort_inplace element %zu", i); auto b = mk(); parlay::stable_sort_inplace(b); for (size_t i = 0; i < n; i++) CHECK(b[i].get() == e[i], "stable_sort_inplace element %zu", i); }
}
TEST(lifetimes) {
  Rng g(seed + 4);
  for (size_t n : {0, 1, 30, 600, 5000, 20000}) { begin("lifetimes n=%zu", n); LifeScope ls("sorting"); { sequence<Tracked> s = parlay::tabulate(n, [&](size_t i) { return Tracked((i64)((i * 7919) % (n / 3 + 1)), (i64)i); });
      auto a = parlay::sort(s); auto b = parlay::stable_sort(s); for (size_t i = 1; i < n; i++) { CHECK(!(a[i] < a[i - 1]), "sort"); CHECK(b[i - 1].get() < b[i].get() || (b[i - 1].get() == b[i].get() && b[i - 1].tag < b[i].tag), "stable_sort"); } auto c = s; parlay::sort_inplace(c); auto d = s; parlay::stable_sort_inplace(d); for (size_t i = 0; i < n; i++) CHECK(c[i].get() == a[i].get() && d[i].tag == b[i].tag, "in place"); } ls.end(); }
}
TEST(random_fill) { Rng g(seed + 9); while (more(1.0)) one(g, g.coin() ? g.below(400) : g.coin() ? g.below(5000) : g.below(60000), g.below(SHAPES)); }
MAIN
