#include "h.h"
#include <list>
#include <parlay/primitives.h>
#include <parlay/delayed.h>
using V = std::vector<i64>;
template <class T> static T mk(i64 x) { return T(x); }
template <> std::string mk<std::string>(i64 x) { return std::to_string(x) + std::string((size_t)x % 30, 'x'); }
template <class T> static void one(const char* nm, size_t n, u64 sd) {
  begin("%s: %zu elements, seed %llu", nm, n, (unsigned long long)sd); Rng g(sd);
  std::vector<std::atomic<int>> cnt(n); auto f = [&](size_t i) { cnt[i]++; return mk<T>((i64)(i * 3 + sd % 7)); };
  auto once = [&](const char* w) { for (size_t i = 0; i < n; i++) { CHECK(cnt[i] == 1, "%s evaluated the function %d times for %zu", w, cnt[i].load(), i); cnt[i] = 0; } };
  std::vector<T> e; for (size_t i = 0; i < n; i++) e.push_back(mk<T>((i64)(i * 3 + sd % 7)));
  auto s = parlay::tabulate(n, f); expect_same(s, e, "tabulate"); once("tabulate"); auto s2 = parlay::tabulate<T>(n, f, 1 + g.below(5000)); expect_same(s2, e, "tabulate with a granularity"); once("tabulate");
  auto m = parlay::map(parlay::iota<size_t>(n), f); expect_same(m, e, "map"); once("map"); auto m2 = parlay::map(s, [](const T& x) { return x; }, 1 + g.below(3000)); expect_same(m2, e, "map");
  auto dm = parlay::dmap(parlay::iota<size_t>(n), f); expect_same(parlay::to_sequence(dm), e, "dmap"); once("dmap");
  auto ts = parlay::to_sequence(s); expect_same(ts, e, "to_sequence"); std::list<T> l(e.begin(), e.end()); auto dt = parlay::delayed_tabulate(n, f); auto tq = parlay::to_sequence(dt); expect_same(tq, e, "to_sequence of a delayed sequence"); once("to_sequence"); auto ts2 = parlay::to_short_sequence(s); expect_same(ts2, e, "to_short_sequence");
  parlay::sequence<T> out(n, mk<T>(-1)); parlay::copy(s, out); expect_same(out, e, "copy"); expect_same(s, e, "source of copy");
  std::vector<T> r(e.rbegin(), e.rend()); expect_same(parlay::reverse(s), r, "reverse"); auto ri = s; parlay::reverse_inplace(ri); expect_same(ri, r, "reverse_inplace");
  for (int k = 0; k < 4; k++) { size_t t = k == 0 ? 0 : k == 1 ? n : g.below(n + 1); auto w = e; std::rotate(w.begin(), w.begin() + t, w.end()); expect_same(parlay::rotate(s, t), w, "rotate"); }
  for (int k = 0; k < 3; k++) { size_t t = g.below(2500); auto b = parlay::tabulate(t, [](size_t i) { return mk<T>((i64)i + 5); }); auto w = e; w.insert(w.end(), b.begin(), b.end()); expect_same(parlay::append(s, b), w, "append"); }
  { auto z = parlay::zip(s, parlay::iota<size_t>(n)); CHECK(parlay::size(z) == n, "zip: size"); for (size_t i = 0; i < n; i++) CHECK(std::get<0>(z[i]) == e[i] && std::get<1>(z[i]) == i, "zip: element %zu", i); auto en = parlay::delayed::enumerate(s); CHECK(parlay::size(en) == n, "enumerate: size"); size_t c = 0; for (auto&& [i, x] : en) { CHECK(i == c && x == e[c], "enumerate: element %zu", c); c++; } auto zz = parlay::zip(s, s, r); auto fl = parlay::to_sequence(zz); for (size_t i = 0; i < n; i++) CHECK(std::get<2>(fl[i]) == r[i], "zip of three"); }
  parlay::for_each(parlay::iota<size_t>(n), [&](size_t i) { cnt[i]++; }); once("for_each");
  parlay::sequence<T> fn = parlay::sequence<T>::from_function(n, f); expect_same(fn, e, "from_function"); once("from_function");
  parlay::sequence<T> cp(s); cp = s; expect_same(cp, e, "copy of a sequence"); parlay::sequence<T> il(l.begin(), l.end()); expect_same(il, e, "from a list"); 
}
template <class T> static void flat(size_t outer, int shape, u64 sd) {
  Rng g(sd); std::vector<std::vector<T>> vv(outer); size_t tot = 0; for (size_t i = 0; i < outer; i++) { size_t k = shape == 0 ? g.below(4) : shape == 1 ? (g.coin(20) ? g.below(5000) : 0) : shape == 2 ? (i + 1 == outer ? 5000 : 0) : shape == 3 ? 0 : g.below(300); if (tot + k > 100000) k = 0; tot += k; for (size_t j = 0; j < k; j++) vv[i].push_back(mk<T>((i64)g.below(1000))); }
  begin("flatten of %zu ranges, shape %d, %zu elements, seed %llu", outer, shape, tot, (unsigned long long)sd);
  std::vector<T> e; for (auto& v : vv) e.insert(e.end(), v.begin(), v.end()); parlay::sequence<parlay::sequence<T>> ss; for (auto& v : vv) ss.push_back(parlay::sequence<T>(v.begin(), v.end()));
  expect_same(parlay::flatten(ss), e, "flatten"); expect_same(parlay::flatten(parlay::map(ss, [](auto& x) { return parlay::make_slice(x); })), e, "flatten of slices"); expect_same(parlay::flatten(parlay::delayed_map(ss, [](auto& x) { return x; })), e, "flatten of temporaries"); for (size_t i = 0; i < outer; i++) CHECK(same(ss[i], vv[i]), "flatten changed its input"); expect_same(parlay::flatten(std::move(ss)), e, "flatten of an rvalue"); expect_same(parlay::flatten(vv), e, "flatten of vectors");
}
static void moves(size_t n) { begin("move-only and tracked elements, %zu", n); { auto s = parlay::tabulate(n, [](size_t i) { return MoveOnly((i64)i); }); for (size_t i = 0; i < n; i++) CHECK(s[i].get() == (i64)i, "tabulate of move-only"); parlay::reverse_inplace(s); for (size_t i = 0; i < n; i++) CHECK(s[i].get() == (i64)(n - 1 - i), "reverse_inplace of move-only"); parlay::sequence<parlay::sequence<MoveOnly>> ss; for (int k = 0; k < 3; k++) ss.push_back(parlay::tabulate(n, [k](size_t i) { return MoveOnly((i64)(i + k)); })); auto f = parlay::flatten(std::move(ss)); CHECK(f.size() == 3 * n, "flatten of move-only"); for (size_t i = 0; i < 3 * n; i++) CHECK(f[i].get() == (i64)(i % (n ? n : 1) + i / (n ? n : 1)), "flatten of move-only"); } }
static bool operator_dummy = false;
TEST(elements) { Rng g(seed); for (size_t n : sizes()) { if (n > 40000) continue; one<i64>("int64", n, g.next()); if (n < 3000) { one<std::string>("string", n, g.next()); } one<unsigned char>("byte", n, g.next()); moves(n); } for (size_t n : sizes()) if (n > 40000) one<int>("int", n, g.next()); }
TEST(flattening) { Rng g(seed + 1); for (size_t o : {0, 1, 2, 3, 10, 100, 1000, 2049, 5000}) for (int sh = 0; sh < 5; sh++) { flat<i64>(o, sh, g.next()); flat<std::string>(o % 300, sh, g.next()); } }
TEST(iotas) { for (int n : {0, 1, 127, 1000}) { begin("iota %d", n); auto s = parlay::to_sequence(parlay::iota<int>(n)); CHECK((int)s.size() == n, "size"); for (int i = 0; i < n; i++) CHECK(s[i] == i, "element"); if (n < 128) { auto c = parlay::to_sequence(parlay::iota<signed char>((signed char)n)); CHECK((int)c.size() == n, "size"); for (int i = 0; i < n; i++) CHECK(c[i] == i, "element"); } } }
TEST(random_fill) { Rng g(seed + 2); while (more(1.0)) { one<i64>("int64", g.below(g.coin() ? 50 : 20000), g.next()); flat<i64>(g.below(g.coin() ? 20 : 3000), g.below(5), g.next()); } }
MAIN
