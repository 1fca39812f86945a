#include "h.h"
#include <parlay/primitives.h>
using parlay::sequence;
// a range whose elements may only be read inside [0, n): reads outside are reported
template <class T> struct Guard { const T* p; size_t n; T operator()(size_t i) const { if (i >= n) fail("the range was read at %zd, outside its %zu elements", (ssize_t)i, n); return p[i]; } };
template <class T> static auto guarded(const std::vector<T>& v) { return parlay::delayed_tabulate(v.size(), Guard<T>{v.data(), v.size()}); }
template <class It> static size_t pos(It b, It i) { return i - b; }

static void finds(const std::vector<int>& v, int val, const char* kind) {
  size_t n = v.size();
  begin("%s n=%zu val=%d %s", kind, n, val, n <= 24 ? show(v).c_str() : "");
  sequence<int> s(v.begin(), v.end()); auto d = guarded(v);
  auto lt = [val](int x) { return x < val; };
  size_t e = std::find(v.begin(), v.end(), val) - v.begin(), e2 = std::find_if(v.begin(), v.end(), lt) - v.begin(), e3 = std::find_if_not(v.begin(), v.end(), lt) - v.begin();
  CHECK(pos(s.begin(), parlay::find(s, val)) == e, "find"); CHECK(pos(d.begin(), parlay::find(d, val)) == e, "find on a guarded range");
  CHECK(pos(s.begin(), parlay::find_if(s, lt)) == e2, "find_if"); CHECK(pos(d.begin(), parlay::find_if(d, lt)) == e2, "find_if guarded");
  CHECK(pos(s.begin(), parlay::find_if_not(s, lt)) == e3, "find_if_not"); CHECK(pos(d.begin(), parlay::find_if_not(d, lt)) == e3, "find_if_not guarded");
  CHECK(parlay::count(s, val) == (size_t)std::count(v.begin(), v.end(), val), "count"); CHECK(parlay::count_if(d, lt) == (size_t)std::count_if(v.begin(), v.end(), lt), "count_if");
  CHECK(parlay::all_of(d, lt) == std::all_of(v.begin(), v.end(), lt), "all_of"); CHECK(parlay::any_of(d, lt) == std::any_of(v.begin(), v.end(), lt), "any_of"); CHECK(parlay::none_of(d, lt) == std::none_of(v.begin(), v.end(), lt), "none_of");
  CHECK(pos(s.begin(), parlay::adjacent_find(s)) == size_t(std::adjacent_find(v.begin(), v.end()) - v.begin()), "adjacent_find");
  auto gt = [](int a, int b) { return a > b; };
  CHECK(pos(d.begin(), parlay::adjacent_find(d, gt)) == size_t(std::adjacent_find(v.begin(), v.end(), gt) - v.begin()), "adjacent_find with an asymmetric predicate");
}
static void pairs(const std::vector<int>& a, const std::vector<int>& b, const char* kind) {
  begin("%s n=%zu m=%zu a=%s b=%s", kind, a.size(), b.size(), a.size() <= 24 ? show(a).c_str() : "", b.size() <= 24 ? show(b).c_str() : "");
  auto A = guarded(a), B = guarded(b); sequence<int> sa(a.begin(), a.end()), sb(b.begin(), b.end());
  auto gt = [](int x, int y) { return x > y; }; auto near = [](int x, int y) { return x == y || x == y + 1; };
  CHECK(pos(A.begin(), parlay::find_first_of(A, B)) == size_t(std::find_first_of(a.begin(), a.end(), b.begin(), b.end()) - a.begin()), "find_first_of");
  CHECK(pos(A.begin(), parlay::find_first_of(A, B, gt)) == size_t(std::find_first_of(a.begin(), a.end(), b.begin(), b.end(), gt) - a.begin()), "find_first_of with an asymmetric predicate");
  { size_t m = std::min(a.size(), b.size()), e = 0; while (e < m && a[e] == b[e]) e++; auto [i, j] = parlay::mismatch(A, B); CHECK(pos(A.begin(), i) == e && pos(B.begin(), j) == e, "mismatch"); 
    e = 0; while (e < m && near(a[e], b[e])) e++; auto [k, l] = parlay::mismatch(A, B, near); CHECK(pos(A.begin(), k) == e && pos(B.begin(), l) == e, "mismatch with a predicate"); }
  CHECK(pos(A.begin(), parlay::search(A, B)) == size_t(std::search(a.begin(), a.end(), b.begin(), b.end()) - a.begin()), "search");
  CHECK(pos(A.begin(), parlay::search(A, B, near)) == size_t(std::search(a.begin(), a.end(), b.begin(), b.end(), near) - a.begin()), "search with a predicate");
  CHECK(pos(A.begin(), parlay::find_end(A, B)) == size_t(std::find_end(a.begin(), a.end(), b.begin(), b.end()) - a.begin()), "find_end");
  CHECK(pos(A.begin(), parlay::find_end(A, B, near)) == size_t(std::find_end(a.begin(), a.end(), b.begin(), b.end(), near) - a.begin()), "find_end with a predicate");
  CHECK(parlay::equal(A, B) == (a == b), "equal"); CHECK(parlay::equal(A, B, near) == std::equal(a.begin(), a.end(), b.begin(), b.end(), near), "equal with a predicate");
  CHECK(parlay::lexicographical_compare(A, B) == (a < b), "lexicographical_compare"); CHECK(parlay::lexicographical_compare(A, B, std::greater<>()) == std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), std::greater<>()), "lexicographical_compare greater");
  CHECK((sa == sb) == (a == b), "sequence =="); CHECK((sa < sb) == (a < b), "sequence <"); CHECK((sa != sb) == (a != b), "sequence !=");
}
TEST(exhaustive_single) {
  for (size_t n = 0; n <= 6; n++) { size_t t = 1; for (size_t i = 0; i < n; i++) t *= 3; for (size_t m = 0; m < t; m++) { std::vector<int> v(n); size_t x = m; for (auto& e : v) { e = x % 3; x /= 3; } finds(v, 1, "exhaustive"); if (n <= 5) finds(v, 2, "exhaustive"); } }
}
TEST(exhaustive_pairs) {
  for (size_t n = 0; n <= 5; n++) for (size_t m = 0; m <= 4; m++) { size_t t = 1, u = 1; for (size_t i = 0; i < n; i++) t *= 2; for (size_t i = 0; i < m; i++) u *= 2; 
    for (size_t p = 0; p < t; p++) for (size_t q = 0; q < u; q++) { std::vector<int> a(n), b(m); for (size_t i = 0; i < n; i++) a[i] = p >> i & 1; for (size_t i = 0; i < m; i++) b[i] = q >> i & 1; pairs(a, b, "exhaustive"); } }
  Rng g(seed); for (int r = 0; r < 3000; r++) { std::vector<int> a(g.below(7)), b(g.below(4)); for (auto& x : a) x = g.below(4); for (auto& x : b) x = g.below(4); pairs(a, b, "small"); }
}
TEST(positions) {   // one match at every interesting place of a long range, plus decoys after it
  Rng g(seed + 1);
  for (size_t n : {999, 1000, 1001, 1999, 2000, 2001, 2048, 3001, 4000, 7000, 7001, 15000, 31000, 63000, 127001}) {
    std::vector<size_t> ps = {0, 1, 499, 998, 999, 1000, 1001, 1500, 1999, 2000, 2001, 2999, 3000, 3001, 6999, 7000, 7001, n / 2, n - 2, n - 1, n};
    for (int i = 0; i < 6; i++) ps.push_back(g.below(n));
    for (size_t p : ps) { if (p > n) continue; std::vector<int> v(n, 5); if (p < n) v[p] = 3; for (int k = 0; k < 3; k++) { size_t q = p + 1 + g.below(n); if (q < n) v[q] = 3; } finds(v, 3, "position"); finds(v, 4, "position"); }
  }
}
TEST(long_pairs) {
  Rng g(seed + 2);
  for (size_t n : {1000, 1001, 2000, 5000, 20000}) for (int r = 0; r < 8; r++) {
    std::vector<int> a(n); for (auto& x : a) x = g.below(2 + r); std::vector<int> b(a);
    pairs(a, b, "equal"); if (n) { b[r == 0 ? n - 1 : r == 1 ? 0 : g.below(n)] ^= 1; } pairs(a, b, "one differs"); b = a; b.pop_back(); pairs(a, b, "prefix"); pairs(b, a, "prefix");
    size_t m = 1 + g.below(5), o = g.below(n - m); std::vector<int> c(a.begin() + o, a.begin() + o + m); pairs(a, c, "pattern"); 
    std::vector<int> t(a.end() - 3, a.end()); pairs(a, t, "pattern at the end"); std::vector<int> big(n + 1, 0); pairs(a, big, "pattern longer than the text"); pairs(a, {}, "empty pattern"); pairs({}, a, "empty text");
  }
}
TEST(random_fill) {
  Rng g(seed + 3);
  while (more(1.0)) { size_t n = g.below(6000); std::vector<int> v(n, 9); int k = g.below(4); for (int i = 0; i < k && n; i++) v[g.below(n)] = g.below(10); finds(v, g.below(10), "random"); 
    std::vector<int> a(g.below(40)), b(g.below(6)); for (auto& x : a) x = g.below(3); for (auto& x : b) x = g.below(3); pairs(a, b, "random"); }
}
MAIN
