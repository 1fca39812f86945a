#include "h.h"
#include <parlay/primitives.h>
#include <parlay/parallel.h>
#include <parlay/scheduler.h>
using parlay::parallel_for; using parlay::par_do;
struct Counts {
  std::vector<std::atomic<uint8_t>> c; std::atomic<u64> total{0}; size_t base; std::atomic<size_t> stray{SIZE_MAX};
  Counts(size_t n, size_t b) : c(n), base(b) { for (auto& x : c) x = 0; }
  void hit(size_t i) { total.fetch_add(1); if (i - base < c.size()) c[i - base].fetch_add(1); else stray = i; }
  void check(const char* what) { CHECK(stray == SIZE_MAX, "%s: called for index %zu outside the range", what, stray.load()); 
    for (size_t i = 0; i < c.size(); i++) CHECK(c[i] == 1, "%s: index %zu was run %d times", what, base + i, (int)c[i]); CHECK(total == c.size(), "%s: %llu calls for %zu indices", what, (unsigned long long)total.load(), c.size()); }
};
static void work(int w) { volatile int x = 0; for (int i = 0; i < w; i++) x = x + i; }
static void loop(size_t start, size_t n, long gran, bool cons, int cost) {
  begin("parallel_for(%zu, %zu, gran=%ld, conservative=%d) cost=%d", start, start + n, gran, cons, cost);
  Counts k(n, start);
  parallel_for(start, start + n, [&](size_t i) { if (cost == 1) work(200); else if (cost == 2) work(i % 64 == 0 ? 5000 : 0); k.hit(i); }, gran, cons);
  k.check("parallel_for");
}
TEST(ranges) {
  for (size_t n : sizes()) for (long g : {0L, 1L, 2L, 7L, 100L, 2048L, 1000000L}) for (size_t s : {size_t(0), size_t(1), size_t(1000003)}) { if (n > 20000 && (g == 1 || s == 1) && !thorough) continue; loop(s, n, g, (n + g) % 5 == 0, n < 5000 ? (int)((n + s) % 3) : 0); }
}
TEST(empty_and_inverted) {
  for (size_t s : {size_t(0), size_t(5), SIZE_MAX - 1, SIZE_MAX}) for (size_t e : {size_t(0), size_t(3), s}) if (e <= s) for (long g : {0L, 1L, 5L}) { begin("empty %zu %zu gran %ld", s, e, g); std::atomic<int> c{0}; parallel_for(s, e, [&](size_t) { c++; }, g); CHECK(c == 0, "body called %d times on an empty range", c.load()); 
    parlay::blocked_for(s, e, 3, [&](size_t, size_t, size_t) { c++; }); CHECK(c == 0, "blocked_for on an empty range"); }
  for (size_t d : {0, 1, 2, 3, 10, 1000}) for (long g : {0L, 1L, 3L, 2000L}) loop(SIZE_MAX - d, d, g, false, 0);
}
TEST(blocked) {
  Rng g(seed);
  for (size_t n : sizes(false)) for (size_t b : {size_t(1), size_t(2), size_t(3), size_t(100), size_t(2048), size_t(100000), SIZE_MAX - 1, SIZE_MAX}) { if (n > 3000 && b < 3) continue; size_t s = g.coin() ? 0 : g.below(1000); begin("blocked_for(%zu, %zu, %zu)", s, s + n, b);
    Counts k(n, s); std::mutex m; std::map<size_t, std::pair<size_t, size_t>> blocks; parlay::blocked_for(s, s + n, b, [&](size_t i, size_t x, size_t y) { { std::lock_guard<std::mutex> l(m); CHECK(blocks.emplace(i, std::make_pair(x, y)).second, "block %zu run twice", i); } CHECK(y > x && y - x <= b, "block size"); for (size_t j = x; j < y; j++) k.hit(j); });
    k.check("blocked_for"); size_t at = s, i = 0; for (auto& q : blocks) { CHECK(q.first == i && q.second.first == at, "block %zu starts at %zu, expected %zu", q.first, q.second.first, at); CHECK(q.second.second == s + n || q.second.second - q.second.first == b, "block %zu is short", i); at = q.second.second; i++; } CHECK(at == s + n, "blocks end early"); }
}
static void tree(int d, std::atomic<u64>& c, bool cons) { if (d == 0) { c++; return; } par_do([&] { tree(d - 1, c, cons); }, [&] { tree(d - 1, c, cons); }, cons); }
static void comb(int d, std::atomic<u64>& c) { if (d == 0) return; std::atomic<int> l{0}, r{0}; par_do([&] { l++; comb(d - 1, c); }, [&] { r++; c++; }); CHECK(l == 1 && r == 1, "a branch of par_do at depth %d ran %d and %d times", d, l.load(), r.load()); }
static void rcomb(int d, std::atomic<u64>& c) { if (d == 0) return; std::atomic<int> l{0}, r{0}; par_do([&] { l++; c++; work(d * 10); }, [&] { r++; rcomb(d - 1, c); }); CHECK(l == 1 && r == 1, "a branch of par_do at depth %d ran %d and %d times", d, l.load(), r.load()); }
TEST(forks) {
  for (int rep = 0; rep < 3; rep++) for (int d : {0, 1, 2, 5, 10, 13}) for (bool cons : {false, true}) { begin("par_do tree depth %d conservative %d", d, cons); std::atomic<u64> c{0}; tree(d, c, cons); CHECK(c == (1ull << d), "%llu leaves of a fork tree of depth %d", (unsigned long long)c.load(), d); }
  for (int d : {1, 10, 100, 500, 800}) { begin("par_do comb depth %d", d); std::atomic<u64> c{0}; comb(d, c); CHECK(c == (u64)d, "left comb"); c = 0; rcomb(d, c); CHECK(c == (u64)d, "right comb: %llu of %d", (unsigned long long)c.load(), d); }
  for (int r = 0; r < 2000; r++) { begin("par_do variants %d", r); std::atomic<int> a{0}, b{0}, c{0}; parlay::parallel_do([&] { a++; }, [&] { b++; }); CHECK(a == 1 && b == 1, "parallel_do"); parlay::par_do_if(r % 2, [&] { a++; }, [&] { b++; }); CHECK(a == 2 && b == 2, "par_do_if"); parlay::par_do3([&] { a++; work(r % 50); }, [&] { b++; }, [&] { c++; }); CHECK(a == 3 && b == 3 && c == 1, "par_do3"); parlay::par_do3_if(r % 3 == 0, [&] { a++; }, [&] { b++; }, [&] { c++; }); CHECK(a == 4 && b == 4 && c == 2, "par_do3_if"); }
}
TEST(nested) {
  for (size_t n : {1, 3, 17, 100, 400}) for (size_t m : {0, 1, 2, 50, 1000}) { begin("nested %zu x %zu", n, m); Counts k(n * m, 0); std::vector<std::atomic<int>> done(n); for (auto& x : done) x = 0;
    parallel_for(0, n, [&](size_t i) { parallel_for(0, m, [&](size_t j) { k.hit(i * m + j); }, i % 4); for (size_t j = 0; j < m; j++) CHECK(k.c[i * m + j] == 1, "inner loop %zu returned before its index %zu had run", i, j); done[i]++; }, n % 3); k.check("nested"); for (size_t i = 0; i < n; i++) CHECK(done[i] == 1, "outer index"); }
}
TEST(returns_after_all) {
  for (int r = 0; r < 300; r++) { begin("completion %d", r); size_t n = 64 + r; std::vector<int> v(n, 0); parallel_for(0, n, [&](size_t i) { work((i * 37 + r) % 400); v[i]++; }, 1); for (size_t i = 0; i < n; i++) CHECK(v[i] == 1, "parallel_for returned before index %zu finished", i); 
    int a = 0, b = 0; par_do([&] { work(r % 7 * 50); a = 1; }, [&] { work(r % 5 * 100); b = 1; }); CHECK(a == 1 && b == 1, "par_do returned before its branches finished"); }
}
TEST(private_schedulers) {
  for (unsigned p : {1u, 2u, 3u, 8u, 13u}) for (int r = 0; r < 4; r++) { begin("execute_with_scheduler p=%u", p); Counts k(5000, 0); std::atomic<int> runs{0}; parlay::execute_with_scheduler(p, [&] { runs++; CHECK(parlay::num_workers() == p, "num_workers"); parallel_for(0, 5000, [&](size_t i) { CHECK(parlay::worker_id() < p, "worker id"); k.hit(i); work(30); }, 1 + r); }); CHECK(runs == 1, "execute_with_scheduler ran its function %d times", runs.load()); k.check("private scheduler"); }
  // several threads each with a scheduler of their own, and nested private schedulers
  for (int r = 0; r < 3; r++) { begin("threads with schedulers"); Counts a(3000, 0), b(3000, 0), c(100, 0); std::thread t1([&] { parlay::execute_with_scheduler(3, [&] { parallel_for(0, 3000, [&](size_t i) { a.hit(i); }, 5); }); }); std::thread t2([&] { parallel_for(0, 3000, [&](size_t i) { b.hit(i); }, 5); }); parlay::execute_with_scheduler(2, [&] { parallel_for(0, 100, [&](size_t i) { if (i == 50) parlay::execute_with_scheduler(3, [&] { parallel_for(0, 100, [&](size_t j) { c.hit(j); }); }); }, 1); }); t1.join(); t2.join(); a.check("a"); b.check("b"); c.check("c"); }
}
TEST(idle_then_work) {
  // workers go to sleep between computations
  for (int r = 0; r < 12; r++) { begin("after idle %d ms", r * 3); usleep(r * 3000); Counts k(20000, 0); parallel_for(0, 20000, [&](size_t i) { k.hit(i); }, 1 + r); k.check("after idle"); }
}
TEST(random_fill) { Rng g(seed + 5); while (more(1.0)) loop(g.coin(3) ? g.next() >> 8 : g.below(10), g.coin() ? g.below(100) : g.below(30000), g.coin() ? 0 : (long)g.below(3000), g.coin(), g.below(3)); }
MAIN
