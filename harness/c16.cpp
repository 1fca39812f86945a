#include "h.h"
#include <parlay/primitives.h>
#include <parlay/random.h>
using parlay::sequence;
template <class T> static void perm(const sequence<T>& r, size_t n, const char* w) { CHECK(r.size() == n, "%s: size %zu expected %zu", w, (size_t)r.size(), n); std::vector<bool> s(n, false); for (size_t i = 0; i < n; i++) { CHECK((size_t)r[i] < n && !s[(size_t)r[i]], "%s: not a permutation at %zu", w, i); s[(size_t)r[i]] = true; } }
// the oracle for reproducibility: the same shuffle on one thread
static void one(size_t n, u64 sd) {
  begin("n=%zu generator=%llu", n, (unsigned long long)sd); parlay::random r(sd);
  auto p = parlay::random_permutation<size_t>(n, r); perm(p, n, "random_permutation"); auto q = parlay::random_permutation<size_t>(n, r); CHECK(p == q, "the same generator state gives different permutations");
  { sequence<size_t> a; parlay::execute_with_scheduler(1, [&] { a = parlay::random_permutation<size_t>(n, r); }); CHECK(a == p, "the permutation depends on the number of workers"); }
  auto s = parlay::tabulate(n, [](size_t i) { return i * 3 + 1; }); auto s0 = s; auto t = parlay::random_shuffle(s, r); CHECK(s == s0, "input changed"); for (size_t i = 0; i < n; i++) CHECK(t[i] == p[i] * 3 + 1, "random_shuffle and random_permutation disagree at %zu", i);
}
TEST(all_small) { for (size_t n = 0; n <= 300; n++) { begin("small n=%zu", n); for (u64 sd = 0; sd < 5; sd++) perm(parlay::random_permutation<size_t>(n, parlay::random(sd)), n, "random_permutation"); perm(parlay::random_permutation<int>((int)n), n, "random_permutation<int>"); } for (unsigned n = 0; n < 256; n++) perm(parlay::random_permutation<uint8_t>((uint8_t)n), n, "random_permutation<uint8_t>"); }
TEST(thresholds) { for (size_t n : sizes()) one(n, seed + n % 3); }
TEST(strings) { for (size_t n : {0, 1, 100, 5000, 20000}) { begin("strings n=%zu", n); LifeScope ls("shuffle"); { auto s = parlay::tabulate(n, [](size_t i) { return Tracked(i); }); auto r = parlay::random_shuffle(s); std::vector<i64> v; for (auto& t : r) v.push_back(t.get()); std::sort(v.begin(), v.end()); for (size_t i = 0; i < n; i++) CHECK(v[i] == (i64)i, "lost element"); } ls.end(); } }
TEST(generators) {
  for (u64 s = 0; s < 2000; s++) { begin("generator %llu", (unsigned long long)s); parlay::random_generator a(s), b(s); CHECK(a() == b() && a() == b(), "same state, different values"); parlay::random_generator c(s); auto x = c[5], y = c[5]; CHECK(x() == y() && x() == y(), "indexing is not a function of state and index"); CHECK(parlay::random_generator(s)[7]() == parlay::random_generator(s)[7](), "indexing");  
    parlay::random r(s), q(s); CHECK(r.fork(3).rand() == q.fork(3).rand() && r.ith_rand(9) == q.ith_rand(9) && r[9] == r.ith_rand(9) && r.next().rand() == q.next().rand(), "random: same state, different values"); std::set<size_t> d; for (u64 i = 0; i < 20; i++) d.insert(c[i]()); CHECK(d.size() == 20, "forked generators coincide"); a.seed(s); parlay::random_generator e(s); CHECK(a() == e(), "seed"); }
}
TEST(random_fill) { Rng g(seed + 9); while (more(1.0)) one(g.coin(3) ? g.below(300000) : g.below(20000), g.next()); }
MAIN
