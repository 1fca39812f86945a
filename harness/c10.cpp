#include "h.h"
#include <parlay/primitives.h>
using parlay::sequence;
template <class K> struct P { K k; u32 i; bool operator==(const P& o) const { return k == o.k && i == o.i; } };
template <class K> static K gen(Rng& g, int sh, size_t i, size_t n) {
  constexpr K M = std::numeric_limits<K>::max();
  switch (sh) { case 0: return (K)g.next(); case 1: return (K)g.below(256); case 2: return M; case 3: return g.coin() ? M : (K)0; case 4: return (K)(M - (K)g.below(3)); case 5: return (K)0; case 6: return (K)(n - i); case 7: return (K)((K)g.below(4) << (sizeof(K) * 8 - 3)); case 8: return (K)g.below(257); case 9: return (K)((K)1 << g.below(sizeof(K) * 8)); default: return (K)(g.below(2) ? i : 3); }
}
template <class K> static void one(Rng& g, size_t n, int sh) {
  begin("integer_sort %zu-bit keys n=%zu shape=%d seed=%llu", sizeof(K) * 8, n, sh, (unsigned long long)seed);
  std::vector<P<K>> v(n); for (size_t i = 0; i < n; i++) v[i] = {gen<K>(g, sh, i, n), (u32)i};
  auto st = v; std::stable_sort(st.begin(), st.end(), [](auto& a, auto& b) { return a.k < b.k; });
  sequence<P<K>> s(v.begin(), v.end()); auto key = [](const P<K>& p) { return p.k; };
  expect_same(parlay::integer_sort(s, key), st, "integer_sort"); CHECK(same(s, v), "integer_sort changed its input");
  expect_same(parlay::stable_integer_sort(s, key), st, "stable_integer_sort");
  { auto c = s; parlay::integer_sort_inplace(c, key); expect_same(c, st, "integer_sort_inplace"); } { auto c = s; parlay::stable_integer_sort_inplace(c, key); expect_same(c, st, "stable_integer_sort_inplace"); }
  std::vector<K> ks(n); for (size_t i = 0; i < n; i++) ks[i] = v[i].k; sequence<K> q(ks.begin(), ks.end()); std::sort(ks.begin(), ks.end()); expect_same(parlay::integer_sort(q), ks, "integer_sort of keys"); parlay::integer_sort_inplace(q); expect_same(q, ks, "integer_sort_inplace of keys");
}
#if IN_PART(2)
static void cnt(Rng& g, size_t n, size_t nb, int sh) {
  begin("counting_sort n=%zu buckets=%zu shape=%d seed=%llu", n, nb, sh, (unsigned long long)seed);
  std::vector<P<u32>> v(n); for (size_t i = 0; i < n; i++) v[i] = {(u32)(sh == 0 ? g.below(nb) : sh == 1 ? nb - 1 : sh == 2 ? 0 : sh == 3 ? i % nb : (g.below(10) ? nb / 2 : g.below(nb))), (u32)i};
  auto st = v; std::stable_sort(st.begin(), st.end(), [](auto& a, auto& b) { return a.k < b.k; }); std::vector<size_t> off(nb + 1, 0); for (auto& p : v) off[p.k + 1]++; for (size_t i = 0; i < nb; i++) off[i + 1] += off[i];
  sequence<P<u32>> s(v.begin(), v.end()); auto key = [](const P<u32>& p) { return p.k; };
  auto chkoff = [&](auto& o, const char* w) { CHECK(o.size() >= nb, "%s: %zu offsets for %zu buckets", w, (size_t)o.size(), nb); for (size_t i = 0; i < o.size(); i++) CHECK(o[i] == off[i], "%s: offset of bucket %zu is %zu, expected %zu", w, i, (size_t)o[i], off[i]); };
  { auto [r, o] = parlay::counting_sort(s, nb, key); expect_same(r, st, "counting_sort"); chkoff(o, "counting_sort"); CHECK(same(s, v), "counting_sort changed its input"); }
  { auto c = s; auto o = parlay::counting_sort_inplace(c, nb, key); expect_same(c, st, "counting_sort_inplace"); chkoff(o, "counting_sort_inplace"); }
  { auto kv = parlay::delayed_map(s, [](const P<u32>& p) { return std::make_pair(p.k, p.i); }); auto [r, o] = parlay::counting_sort_by_keys(kv, nb); CHECK(r.size() == n, "by_keys size"); for (size_t i = 0; i < n; i++) CHECK(r[i] == st[i].i, "counting_sort_by_keys element %zu", i); chkoff(o, "counting_sort_by_keys"); }
  { auto q = parlay::map(s, key); auto [r, o] = parlay::counting_sort(q, nb); for (size_t i = 0; i < n; i++) CHECK(r[i] == st[i].k, "counting_sort of keys element %zu", i); chkoff(o, "counting_sort of keys"); auto o2 = parlay::counting_sort_inplace(q, nb); for (size_t i = 0; i < n; i++) CHECK(q[i] == st[i].k, "counting_sort_inplace of keys element %zu", i); chkoff(o2, "counting_sort_inplace of keys"); }
  { auto [r, c] = parlay::internal::integer_sort_with_counts(parlay::make_slice(s), key, nb); expect_same(r, st, "integer_sort_with_counts"); for (size_t i = 0; i < c.size(); i++) CHECK(c[i] == off[i + 1] - off[i], "count of bucket %zu is %zu, expected %zu", i, (size_t)c[i], off[i + 1] - off[i]); CHECK(c.size() == nb, "number of counts"); }
  if (nb > 1) { // the form that returns bucket offsets
    size_t bits = parlay::log2_up(nb); auto Out = sequence<P<u32>>::uninitialized(n); auto Tmp = sequence<P<u32>>::uninitialized(n); 
    auto o = parlay::internal::integer_sort_<std::false_type, parlay::uninitialized_copy_tag>(parlay::make_slice(s), parlay::make_slice(Out), parlay::make_slice(Tmp), key, bits, nb); expect_same(Out, st, "integer_sort_ with offsets"); chkoff(o, "integer_sort_ with offsets"); }
}
#endif
#if IN_PART(1)
TEST(integer) { Rng g(seed); for (size_t n : sizes()) for (int sh = 0; sh < 11; sh++) { if (n > 300 && (n + sh) % 3) continue; if (n > 30000 && (n + sh) % 4) continue; one<u64>(g, n, sh); one<u32>(g, n, sh); one<uint16_t>(g, n, sh); one<uint8_t>(g, n, sh); } }
#endif
#if IN_PART(2)
TEST(counting) { Rng g(seed + 1); for (size_t n : sizes()) for (size_t nb : {1, 2, 3, 16, 255, 256, 257, 1000, 4096, 70000}) for (int sh = 0; sh < 5; sh++) { if (n > 2000 && (n + sh + nb) % 4) continue; if (nb > 5000 && (n % 3)) continue; cnt(g, n, nb, sh); } }
TEST(large_counts) { Rng g(seed + 5); for (size_t nb : {256, 1000, 16384, 20000}) cnt(g, 200000, nb, 0); cnt(g, 200000, 20000, 4); cnt(g, 140000, 9000, 1); }
#endif
#if IN_PART(1)
TEST(large_keys) { Rng g(seed + 5); one<u64>(g, 300000, 0); one<u64>(g, 300000, 9); one<u64>(g, 300000, 4); one<u32>(g, 300000, 7); one<uint16_t>(g, 200000, 0); }
#endif
#if IN_PART(2)
TEST(strings) { Rng g(seed + 2); for (size_t n : {0, 1, 300, 5000, 20000}) { begin("strings n=%zu", n); std::vector<std::string> v(n); for (auto& x : v) x = std::string(g.below(40), 'x') + std::to_string(g.below(9)); sequence<std::string> s(v.begin(), v.end()); auto key = [](const std::string& x) { return (unsigned)x.size(); }; auto e = v; std::stable_sort(e.begin(), e.end(), [&](auto& a, auto& b) { return a.size() < b.size(); });
    expect_same(parlay::integer_sort(s, key), e, "integer_sort"); CHECK(same(s, v), "input"); auto c = s; parlay::integer_sort_inplace(c, key); expect_same(c, e, "integer_sort_inplace"); expect_same(parlay::counting_sort(s, 64, key).first, e, "counting_sort"); c = s; parlay::counting_sort_inplace(c, 64, key); expect_same(c, e, "counting_sort_inplace"); } }
TEST(lifetimes) { for (size_t n : {0, 1, 300, 6000, 20000}) { begin("lifetimes n=%zu", n); LifeScope ls("integer sorting"); { auto s = parlay::tabulate(n, [&](size_t i) { return Tracked((i * 7919) % 300, i); }); auto key = [](const Tracked& t) { return (unsigned)t.get(); }; auto r = parlay::integer_sort(s, key); auto c = s; parlay::integer_sort_inplace(c, key); auto [q, o] = parlay::counting_sort(s, 300, key); auto d = s; parlay::counting_sort_inplace(d, 300, key); for (size_t i = 1; i < n; i++) CHECK(r[i - 1].v < r[i].v || (r[i - 1].v == r[i].v && r[i - 1].tag < r[i].tag), "order"); for (size_t i = 0; i < n; i++) CHECK(c[i].tag == r[i].tag && q[i].tag == r[i].tag && d[i].tag == r[i].tag, "forms differ"); } ls.end(); } }
#endif
TEST(random_fill) { Rng g(seed + 9); while (more(1.0)) { size_t n = g.coin(3) ? g.below(200000) : g.below(4000); switch (g.below(5)) {
#if IN_PART(1)
  case 0: one<u64>(g, n, g.below(11)); break; case 1: one<u32>(g, n, g.below(11)); break; case 2: one<uint16_t>(g, n, g.below(11)); break; case 3: one<uint8_t>(g, n, g.below(11)); break;
#endif
  default:
#if IN_PART(2)
    cnt(g, n, g.range(1, 3000), g.below(5));
#endif
    break; } } }
MAIN
