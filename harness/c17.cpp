#include "h.h"
#include <parlay/hash_table.h>
#include <parlay/primitives.h>
// entries: key in the high 32 bits, payload in the low 32 bits
static int mode = 0; static size_t tab_m = 100;
static size_t hashf(u32 k) {
  switch (mode) { case 0: return parlay::hash64(k); case 1: return 0; case 2: return tab_m - 1; case 3: return k % 3; case 4: return tab_m - 1 - (k % 4); case 5: return k; case 6: return k / 8; default: return tab_m - 1 - k % 2 + (k % 5) * tab_m; }
}
static const char* mname[] = {"hash64", "all keys collide", "all keys in the last cell", "three cells", "wrap around", "identity", "runs of eight", "wrap around 2"};
struct HS {
  using eType = u64; using kType = u32;
  eType empty() { return ~u64(0); }
  kType getKey(eType v) { return (u32)(v >> 32); }
  size_t hash(kType k) { return hashf(k); }
  int cmp(kType a, kType b) { return a > b ? 1 : a == b ? 0 : -1; }
  bool replaceQ(eType n, eType o) { return (u32)n < (u32)o; }
  eType update(eType, eType v) { return v; }
  bool cas(eType* p, eType o, eType n) { return __atomic_compare_exchange_n(p, &o, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
};
using Model = std::map<u32, u32>;
template <class T> static void agree(T& t, const Model& m, u32 universe, const char* when) {
  auto e = t.entries(); CHECK(e.size() == m.size(), "%s: %zu entries, expected %zu", when, e.size(), m.size());
  std::vector<u64> a(e.begin(), e.end()), b; std::sort(a.begin(), a.end()); for (auto [k, v] : m) b.push_back((u64(k) << 32) | v); CHECK(a == b, "%s: entries differ", when);
  CHECK(t.count() == m.size(), "%s: count", when);
  auto ix = t.get_index(); size_t prev = 0; CHECK(ix.size() > m.size(), "%s: get_index size", when); for (auto x : ix) { CHECK(x >= prev && x <= prev + 1, "%s: get_index", when); prev = x; }
  std::atomic<int> bad{0};
  parlay::parallel_for(0, universe, [&](size_t k) { u64 r = t.find((u32)k); auto it = m.find((u32)k); if (it == m.end() ? r != ~u64(0) : r != ((u64(k) << 32) | it->second)) bad++; size_t fi = t.findIndex((u32)k); if ((it == m.end()) != (fi == (size_t)-1)) bad++; });
  CHECK(!bad, "%s: find disagrees for %d keys", when, bad.load());
}
static void history(Rng& g, size_t cap, u32 universe, int phases, bool upd) {
  parlay::hashtable<HS> t(cap, HS{}, 1.0); tab_m = 100 + cap;
  Model m; 
  for (int ph = 0; ph < phases; ph++) {
    size_t room = tab_m - 1 - m.size(); 
    if (g.coin() || m.empty()) {
      // concurrent inserts (several per key); the first phase stays below the number of cells
      std::vector<u64> ins; std::set<u32> fresh; size_t want = g.below(std::min<size_t>(room, universe) + 1);
      for (size_t i = 0; i < want; i++) { u32 k = g.below(universe); if (!m.count(k)) { if (fresh.size() >= room) continue; fresh.insert(k); } int c = 1 + g.below(3); for (int j = 0; j < c; j++) ins.push_back((u64(k) << 32) | g.below(5)); }
      begin("%s table of %zu cells, phase %d: %zu concurrent %s, %zu keys before", mname[mode], tab_m, ph, ins.size(), upd ? "updates" : "inserts", m.size());
      std::vector<char> res(ins.size());
      parlay::parallel_for(0, ins.size(), [&](size_t i) { res[i] = upd ? t.update(ins[i]) : t.insert(ins[i]); }, 1);
      for (auto v : ins) { u32 k = v >> 32, p = (u32)v; auto it = m.find(k); if (it == m.end()) m[k] = p; else if (p < it->second) it->second = p; }
      agree(t, m, universe, "after inserting");
    } else {
      std::vector<u32> del; size_t want = g.below(universe + 1); for (size_t i = 0; i < want; i++) del.push_back(g.below(universe));
      if (g.coin(6)) { del.clear(); for (u32 k = 0; k < universe; k++) del.push_back(k); }
      begin("%s table of %zu cells, phase %d: %zu concurrent deletions, %zu keys before", mname[mode], tab_m, ph, del.size(), m.size());
      parlay::parallel_for(0, del.size(), [&](size_t i) { t.deleteVal(del[i]); }, 1);
      for (auto k : del) m.erase(k);
      agree(t, m, universe, "after deleting");
    }
  }
}
TEST(sequential_small) { Rng g(seed); for (mode = 0; mode < 8; mode++) for (u32 k = 1; k <= 6; k++) {
    parlay::hashtable<HS> t(0, HS{}, 1.0); tab_m = 100; Model m; begin("%s sequential %u keys", mname[mode], k);
    std::vector<u32> ks; for (u32 i = 0; i < k; i++) ks.push_back(i * 7 % 11); 
    do { Model m; parlay::hashtable<HS> t(0, HS{}, 1.0); for (u32 x : ks) { CHECK(t.insert((u64(x) << 32) | 3), "insert returns true for a new key"); m[x] = 3; } CHECK(!t.insert((u64(ks[0]) << 32) | 4), "insert returns false if an equal key stays"); CHECK(t.insert((u64(ks[0]) << 32) | 1), "insert replaces"); m[ks[0]] = 1; agree(t, m, 20, "inserted"); for (u32 x : ks) { CHECK(t.deleteVal(x), "deleteVal"); m.erase(x); if (k < 5) agree(t, m, 20, "deleted"); } agree(t, m, 20, "all deleted"); } while (k < 5 ? std::next_permutation(ks.begin(), ks.end()) : false);
  } }
TEST(phases) { Rng g(seed + 1); for (int r = 0; r < (thorough ? 20 : 4); r++) for (mode = 0; mode < 8; mode++) { history(g, g.coin() ? 0 : g.below(60), 10 + g.below(90), 8, r & 1); } }
TEST(numeric) { Rng g(seed + 2); for (size_t n : {0, 1, 5, 100, 2000, 20000}) { begin("hash_numeric %zu", n); parlay::hashtable<parlay::hash_numeric<int>> t(n, {}); std::vector<int> v(n); for (auto& x : v) x = g.below(n * 2 + 1); std::set<int> s(v.begin(), v.end()); parlay::parallel_for(0, n, [&](size_t i) { t.insert(v[i]); }); CHECK(t.count() == s.size(), "count"); auto e = t.entries(); CHECK((std::set<int>(e.begin(), e.end()) == s) && e.size() == s.size(), "entries"); std::vector<int> d; for (size_t i = 0; i < n / 2; i++) d.push_back(g.below(2 * n + 1)); parlay::parallel_for(0, d.size(), [&](size_t i) { t.deleteVal(d[i]); }); for (int x : d) s.erase(x); e = t.entries(); CHECK((std::set<int>(e.begin(), e.end()) == s) && e.size() == s.size(), "entries after deleting"); for (int k = 0; k < (int)(2 * n + 1); k++) CHECK((t.find(k) == k) == (s.count(k) > 0), "find"); } }
TEST(random_fill) { Rng g(seed + 3); while (more(1.0)) { mode = g.below(8); history(g, g.coin() ? 0 : g.below(400), 5 + g.below(g.coin() ? 60 : 300), 1 + g.below(10), g.coin()); } }
MAIN
