#include "h.h"
#include <parlay/utilities.h>
#include <parlay/parallel.h>
template <class T> static void run_(const char* nm, u64 sd, int nt, int per) {
  begin("%s: %d threads, %d operations each, seed %llu", nm, nt, per, (unsigned long long)sd);
  Rng g(sd); std::vector<std::vector<T>> v(nt); for (auto& x : v) for (int i = 0; i < per; i++) x.push_back((T)(g.below(g.coin() ? 8 : 100000))); T init = (T)g.below(1000);
  std::atomic<T> mn{init}, mx{init}, sm{init}, mr{init}; std::atomic<int> go{0}; std::atomic<long> wins{0}, wins2{0}; std::vector<std::thread> th;
  std::vector<std::vector<T>> won(nt);
  for (int t = 0; t < nt; t++) th.emplace_back([&, t] { go++; while (go < nt) {} for (T x : v[t]) { T before = mn.load(); bool r = parlay::write_min(&mn, x, std::less<T>()); if (r) { won[t].push_back(x); wins++; if (!(x < before)) fail("write_min reported success for a value that was not smaller"); } if (mn.load() > x) fail("the location holds a greater value after write_min"); if (parlay::write_max(&mx, x, std::less<T>())) wins2++; if (mx.load() < x) fail("the location holds a smaller value after write_max"); parlay::write_add(&sm, x); parlay::write_min(&mr, x, std::greater<T>()); } });
  for (auto& t : th) t.join();
  T a = init, b = init; T s = init; for (auto& x : v) for (T y : x) { a = std::min(a, y); b = std::max(b, y); s = (T)(s + y); }
  CHECK(mn == a, "write_min lost an update"); CHECK(mx == b, "write_max lost an update"); CHECK(sm == s, "write_add lost an update"); CHECK(mr == b, "write_min with a reversed order lost an update");
  std::vector<T> w; for (auto& x : won) w.insert(w.end(), x.begin(), x.end()); std::sort(w.begin(), w.end()); CHECK(std::adjacent_find(w.begin(), w.end()) == w.end(), "write_min reported success twice for one value"); if (a != init) CHECK(!w.empty() && w[0] == a, "the minimum was not reported as written");
}
TEST(sequential) { begin("sequential"); std::atomic<int> a{5}; CHECK(!parlay::write_min(&a, 5, std::less<int>()) && a == 5, "equal value"); CHECK(!parlay::write_min(&a, 6, std::less<int>()) && a == 5, "greater"); CHECK(parlay::write_min(&a, 4, std::less<int>()) && a == 4, "smaller"); CHECK(!parlay::write_max(&a, 4, std::less<int>()) && a == 4, "equal"); CHECK(!parlay::write_max(&a, 3, std::less<int>()) && a == 4, "less"); CHECK(parlay::write_max(&a, 9, std::less<int>()) && a == 9, "greater"); parlay::write_add(&a, 7); CHECK(a == 16, "add"); std::atomic<u64> u{~u64(0)}; parlay::write_add(&u, 2); CHECK(u == 1, "wrap around"); parlay::write_add(&u, (char)3); CHECK(u == 4, "another type"); }
TEST(concurrent) { Rng g(seed); for (int r = 0; r < 10; r++) { run_<int>("int", g.next(), 8, 2000); run_<u64>("u64", g.next(), 6, 2000); run_<unsigned char>("u8", g.next(), 4, 500); run_<double>("double", g.next(), 4, 500); } }
TEST(random_fill) { Rng g(seed + 1); while (more(1.0)) { int nt = 2 + g.below(7); if (g.coin()) run_<int>("int", g.next(), nt, 1 + g.below(3000)); else run_<u64>("u64", g.next(), nt, 1 + g.below(3000)); } }
MAIN
