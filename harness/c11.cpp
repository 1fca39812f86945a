#include "h.h"
#include <parlay/primitives.h>
#include <parlay/internal/group_by.h>
using parlay::sequence;
struct BadHash { size_t operator()(u64 x) const { return x % 3; } };
struct ConstHash { size_t operator()(u64) const { return 42; } };
static std::vector<u64> keys(Rng& g, size_t n, int shape, u64 range) {
  std::vector<u64> v(n);
  for (size_t i = 0; i < n; i++) switch (shape) { case 0: v[i] = g.below(range); break; case 1: v[i] = range - 1; break; case 2: v[i] = i % range; break; case 3: v[i] = g.below(3) ? range / 2 : g.below(range); break; case 4: v[i] = g.coin(50) ? g.below(range) : g.below(std::min<u64>(range, 4)); break; default: v[i] = (n - 1 - i) % range; }
  return v;
}
#if IN_PART(1)
static void by_key(Rng& g, size_t n, int shape, u64 range) {
  begin("by key n=%zu shape=%d range=%llu seed=%llu", n, shape, (unsigned long long)range, (unsigned long long)seed);
  auto ks = keys(g, n, shape, range); u64 mul = g.coin() ? 1 : 0x9E3779B97F4A7C15ull; for (auto& k : ks) k *= mul;
  std::map<u64, std::vector<u64>> ref; for (size_t i = 0; i < n; i++) ref[ks[i]].push_back(i * 3 + 1);
  auto kv = parlay::tabulate(n, [&](size_t i) { return std::pair<u64, u64>(ks[i], i * 3 + 1); }); auto kv0 = kv; sequence<u64> s(ks.begin(), ks.end());
  auto ck = [&](auto r, const char* w) { CHECK(r.size() == ref.size(), "%s: %zu groups, expected %zu", w, (size_t)r.size(), ref.size()); std::set<u64> seen; for (size_t i = 0; i < r.size(); i++) { u64 k = r[i].first; auto it = ref.find(k); CHECK(it != ref.end(), "%s: key %llu is not in the input", w, (unsigned long long)k); CHECK(seen.insert(k).second, "%s: key listed twice", w); std::vector<u64> x(r[i].second.begin(), r[i].second.end()); std::sort(x.begin(), x.end()); CHECK(x == it->second, "%s: group of key %llu has the wrong values", w, (unsigned long long)k); } };
  ck(parlay::group_by_key(kv), "group_by_key"); CHECK(kv == kv0, "input changed");
  { auto r = parlay::group_by_key_ordered(kv); ck(r, "group_by_key_ordered"); for (size_t i = 1; i < r.size(); i++) CHECK(r[i - 1].first < r[i].first, "group_by_key_ordered: keys out of order"); for (auto& p : r) for (size_t j = 1; j < p.second.size(); j++) CHECK(p.second[j - 1] < p.second[j], "group_by_key_ordered: values out of order"); CHECK(kv == kv0, "input changed"); }
  { auto r = parlay::group_by_key_ordered(kv, [](u64 a, u64 b) { return a < b; }); ck(r, "group_by_key_ordered with a comparison"); }
  { auto r = parlay::reduce_by_key(kv); CHECK(r.size() == ref.size(), "reduce_by_key: number of keys"); std::set<u64> seen; for (auto& p : r) { u64 sum = 0; CHECK(ref.count(p.first) && seen.insert(p.first).second, "reduce_by_key: keys"); for (u64 x : ref[p.first]) sum += x; CHECK(sum == p.second, "reduce_by_key: sum of key %llu", (unsigned long long)p.first); } }
  { auto r = parlay::reduce_by_key(kv, parlay::maximum<u64>()); for (auto& p : r) CHECK(p.second == ref[p.first].back(), "reduce_by_key with maximum"); }
  { auto r = parlay::histogram_by_key(s); CHECK(r.size() == ref.size(), "histogram_by_key: number of keys"); std::set<u64> seen; for (auto& p : r) CHECK(ref.count(p.first) && seen.insert(p.first).second && ref[p.first].size() == p.second, "histogram_by_key: count of key %llu is %zu", (unsigned long long)p.first, (size_t)p.second); }
  { auto r = parlay::remove_duplicates(s); std::vector<u64> x(r.begin(), r.end()); std::sort(x.begin(), x.end()); std::vector<u64> e; for (auto& p : ref) e.push_back(p.first); CHECK(x == e, "remove_duplicates"); }
  if (n < 3000) { auto r = parlay::histogram_by_key(s, BadHash()); CHECK(r.size() == ref.size(), "histogram_by_key with a colliding hash"); for (auto& p : r) CHECK(ref[p.first].size() == p.second, "histogram_by_key with a colliding hash"); }
  if (n < 400) { auto r = parlay::remove_duplicates(s, ConstHash()); CHECK(r.size() == ref.size(), "remove_duplicates with a constant hash"); }
  { auto c = kv; auto r = parlay::group_by_key(std::move(c)); ck(r, "group_by_key of a temporary"); }
}
#endif
#if IN_PART(2) || IN_PART(3)
template <class I> static void by_index(Rng& g, size_t n, int shape, size_t nb) {
  begin("by index n=%zu shape=%d buckets=%zu (%zu-byte type) seed=%llu", n, shape, nb, sizeof(I), (unsigned long long)seed);
  auto ks = keys(g, n, shape, nb); std::vector<std::vector<u64>> ref(nb); for (size_t i = 0; i < n; i++) ref[ks[i]].push_back(i * 5 + 2);
  auto kv = parlay::tabulate(n, [&](size_t i) { return std::pair<I, u64>((I)ks[i], i * 5 + 2); }); sequence<I> s = parlay::tabulate(n, [&](size_t i) { return (I)ks[i]; });
  { auto r = parlay::group_by_index(kv, (I)nb); CHECK(r.size() == nb, "group_by_index: %zu groups, expected %zu", (size_t)r.size(), nb); for (size_t i = 0; i < nb; i++) { std::vector<u64> x(r[i].begin(), r[i].end()); std::sort(x.begin(), x.end()); CHECK(x == ref[i], "group_by_index: group %zu has the wrong values", i); } }
  if constexpr (sizeof(I) >= 4) { auto r = parlay::histogram_by_index(s, (I)nb); CHECK(r.size() == nb, "histogram_by_index: size"); for (size_t i = 0; i < nb; i++) CHECK((size_t)r[i] == ref[i].size(), "histogram_by_index: count of %zu is %zu, expected %zu", i, (size_t)r[i], ref[i].size()); }
  { auto r = parlay::reduce_by_index(kv, nb); CHECK(r.size() == nb, "reduce_by_index: size"); for (size_t i = 0; i < nb; i++) { u64 t = 0; for (u64 x : ref[i]) t += x; CHECK(r[i] == t, "reduce_by_index: sum of %zu", i); } }
  { auto r = parlay::reduce_by_index(kv, nb, parlay::maximum<u64>()); for (size_t i = 0; i < nb; i++) CHECK(r[i] == (ref[i].empty() ? 0 : ref[i].back()), "reduce_by_index with maximum at %zu", i); }
  { auto r = parlay::remove_duplicate_integers(s, (I)nb); std::vector<u64> x(r.begin(), r.end()), e; for (size_t i = 0; i < nb; i++) if (!ref[i].empty()) e.push_back(i); std::sort(x.begin(), x.end()); CHECK(x == e, "remove_duplicate_integers"); }
}
#endif
TEST(small_exhaustive) { Rng g(seed); for (size_t n = 0; n <= 12; n++) for (u64 r : {1, 2, 3, 7, 100}) for (int sh = 0; sh < 6; sh++) {
#if IN_PART(1)
  by_key(g, n, sh, r);
#endif
#if IN_PART(2)
  by_index<u64>(g, n, sh, r); by_index<uint8_t>(g, n, sh, r);
#endif
} }
#if IN_PART(1)
TEST(keys_sweep) { Rng g(seed + 1); for (size_t n : {100, 255, 256, 1000, 8191, 8192, 9999, 10000, 10001, 20000, 60000}) for (u64 r : {1ull, 2ull, 10ull, 300ull, 5000ull, 1000000ull, 1ull << 40}) for (int sh : {0, 1, 3, 4}) if ((n + r + sh) % 2 || n < 2000) by_key(g, n, sh, r); }
#endif
#if IN_PART(2) || IN_PART(3)
TEST(index_sweep) { Rng g(seed + 2); for (size_t n : {100, 255, 256, 257, 1000, 8191, 8192, 8193, 20000, 70000}) for (size_t nb : {1, 2, 3, 16, 17, 64, 65, 200, 255, 1000, 65535, 100000}) for (int sh : {0, 1, 2, 3, 4}) { if (n > 5000 && (n + nb + sh) % 3) continue;
#if IN_PART(2)
  by_index<u64>(g, n, sh, nb); if (nb < 256) by_index<uint8_t>(g, n, sh, nb);
#endif
#if IN_PART(3)
  if (nb < 65536) by_index<uint16_t>(g, n, sh, nb); if (sh == 3) by_index<u32>(g, n, sh, nb);
#endif
} }
#endif
#if IN_PART(3)
TEST(noncommutative) { Rng g(seed + 3); for (size_t n : {0, 10, 5000, 30000}) for (size_t nb : {3, 40, 3000}) { begin("ordered combination n=%zu buckets=%zu", n, nb); auto ks = keys(g, n, 0, nb); auto cat = parlay::binary_op([](const std::string& a, const std::string& b) { return a + b; }, std::string()); auto kv = parlay::tabulate(n, [&](size_t i) { return std::pair<u64, std::string>(ks[i], std::to_string(i) + ","); }); std::vector<std::string> e(nb); for (size_t i = 0; i < n; i++) e[ks[i]] += std::to_string(i) + ","; auto r = parlay::reduce_by_index(kv, nb, cat); for (size_t i = 0; i < nb; i++) CHECK(r[i] == e[i], "reduce_by_index order of bucket %zu", i); } }
#endif
#if IN_PART(1)
TEST(strings) { Rng g(seed + 4); for (size_t n : {0, 1, 50, 3000, 15000}) { begin("string keys n=%zu", n); auto kv = parlay::tabulate(n, [&](size_t i) { Rng q(i + 7); return std::pair<std::string, std::string>("key" + std::to_string(q.below(40)) + std::string(20, 'k'), "v" + std::to_string(i) + std::string(20, 'v')); }); std::map<std::string, std::multiset<std::string>> ref; for (auto& p : kv) ref[p.first].insert(p.second); auto r = parlay::group_by_key(kv); CHECK(r.size() == ref.size(), "groups"); for (auto& p : r) CHECK(ref[p.first] == std::multiset<std::string>(p.second.begin(), p.second.end()), "group"); auto o = parlay::group_by_key_ordered(kv); CHECK(o.size() == ref.size(), "ordered groups"); for (auto& p : o) CHECK(ref[p.first] == std::multiset<std::string>(p.second.begin(), p.second.end()), "group");
    auto h = parlay::histogram_by_key(parlay::map(kv, [](auto& p) { return p.first; })); for (auto& p : h) CHECK(ref[p.first].size() == p.second, "histogram"); auto d = parlay::remove_duplicates(parlay::map(kv, [](auto& p) { return p.first; })); CHECK(d.size() == ref.size(), "remove_duplicates"); } }
#endif
TEST(random_fill) { Rng g(seed + 9); while (more(1.0)) { size_t n = g.coin(3) ? g.below(60000) : g.below(3000); bool k = g.coin(); int sh = g.below(6);
#if IN_PART(1)
  if (k || PART) by_key(g, n, sh, g.coin() ? g.range(1, 20) : g.range(1, 100000));
#endif
#if IN_PART(2)
  if (!k || PART) by_index<u64>(g, n, sh, g.coin() ? g.range(1, 100) : g.range(1, 20000));
#elif IN_PART(3)
  by_index<u32>(g, n, sh, g.coin() ? g.range(1, 100) : g.range(1, 20000));
#endif
} }
MAIN
