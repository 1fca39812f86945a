#include "h.h"
#include <list>
#include <parlay/sequence.h>
#include <parlay/primitives.h>
using parlay::sequence;
struct Big { i64 v; char pad[10000]; Big(i64 x = 0) : v(x) { memset(pad, (char)x, sizeof pad); } bool operator==(const Big& o) const { return v == o.v && pad[9999] == o.pad[9999]; } bool operator<(const Big& o) const { return v < o.v; } };
struct Odd { unsigned char b[3]; Odd(int x = 0) { b[0] = x; b[1] = x >> 8; b[2] = x >> 16; } bool operator==(const Odd& o) const { return !memcmp(b, o.b, 3); } bool operator<(const Odd& o) const { return memcmp(b, o.b, 3) < 0; } };
template <class T> T mk(u64 x) { return T(x); }
template <> std::string mk<std::string>(u64 x) { return std::string(x % 40, 'a' + x % 26) + std::to_string(x); }
template <> Odd mk<Odd>(u64 x) { return Odd((int)(x & 0xffffff)); }
template <> Big mk<Big>(u64 x) { return Big((i64)(x % 100000)); }
template <> Tracked mk<Tracked>(u64 x) { return Tracked((i64)(x % 1000000)); }

// runs a random history on a sequence and on a list; a canary sequence must never change
template <class S, class T> static void history(const char* kind, u64 sd, int steps, size_t maxn) {
  Rng g(sd);
  S s; std::vector<T> v; S canary(7, mk<T>(42)); std::vector<T> cv(7, mk<T>(42));
  std::string trace;
  auto log = [&](const char* f, auto... a) { char b[120]; snprintf(b, sizeof b, f, a...); trace += b; if (trace.size() > 1500) trace = ".." + trace.substr(trace.size() - 1400); begin("%s history seed=%llu: %s", kind, (unsigned long long)sd, trace.c_str()); };
  auto chk = [&] {
    CHECK(s.size() == v.size(), "size is %zu, expected %zu", s.size(), v.size());
    CHECK(s.empty() == v.empty(), "empty()"); CHECK(s.capacity() >= s.size(), "capacity %zu below size %zu", s.capacity(), s.size());
    CHECK((size_t)(s.end() - s.begin()) == v.size(), "end - begin");
    for (size_t i = 0; i < v.size(); i++) CHECK(s[i] == v[i], "element %zu differs", i);
    if (!v.empty()) { CHECK(s.front() == v.front() && s.back() == v.back(), "front/back"); }
    CHECK(canary.size() == 7, "another sequence changed"); for (int i = 0; i < 7; i++) CHECK(canary[i] == cv[i], "another sequence changed");
  };
  auto num = [&] { size_t k = g.below(6); return (size_t)(k == 0 ? 0 : k < 4 ? g.below(6) : g.below(maxn)); };
  for (int st = 0; st < steps; st++) {
    size_t n = v.size(); int op = g.below(30); size_t p = g.below(n + 1);
    if (n > 4 * maxn) op = 20;
    switch (op) {
      case 0: { u64 x = g.next(); log("push_back;"); auto it = s.push_back(mk<T>(x)); v.push_back(mk<T>(x)); CHECK(it == s.end() - 1, "push_back returns the wrong iterator"); break; }
      case 1: { T t = mk<T>(g.next()); log("push_back(const);"); s.push_back(t); v.push_back(t); break; }
      case 2: if (n) { size_t i = g.below(n); log("push_back(s[%zu]) n=%zu;", i, n); T t = v[i]; s.push_back(s[i]); v.push_back(t); } break;
      case 3: { u64 x = g.next(); log("insert(%zu,x) n=%zu;", p, n); auto it = s.insert(s.begin() + p, mk<T>(x)); v.insert(v.begin() + p, mk<T>(x)); CHECK(it - s.begin() == (ssize_t)p, "insert returns position %zd, expected %zu", it - s.begin(), p); break; }
      case 4: if (n) { size_t i = g.below(n); log("insert(%zu,s[%zu]) n=%zu;", p, i, n); T t = v[i]; auto it = s.insert(s.begin() + p, s[i]); v.insert(v.begin() + p, t); CHECK(it - s.begin() == (ssize_t)p, "insert position"); } break;
      case 5: { size_t k = num(); T t = mk<T>(g.next()); log("insert(%zu,%zu copies) n=%zu;", p, k, n); auto it = s.insert(s.begin() + p, k, t); v.insert(v.begin() + p, k, t); CHECK(it - s.begin() == (ssize_t)p, "insert(n) returns position %zd, expected %zu", it - s.begin(), p); break; }
      case 6: if (n) { size_t k = num(), i = g.below(n); log("insert(%zu,%zu copies of s[%zu]) n=%zu;", p, k, i, n); T t = v[i]; auto it = s.insert(s.begin() + p, k, s[i]); v.insert(v.begin() + p, k, t); CHECK(it - s.begin() == (ssize_t)p, "insert(n) position"); } break;
      case 7: { size_t k = num(); std::vector<T> r; for (size_t i = 0; i < k; i++) r.push_back(mk<T>(g.next())); log("insert range(%zu,%zu) n=%zu;", p, k, n); auto it = s.insert(s.begin() + p, r.begin(), r.end()); v.insert(v.begin() + p, r.begin(), r.end()); CHECK(it - s.begin() == (ssize_t)p, "insert(range) returns position %zd, expected %zu", it - s.begin(), p); break; }
      case 8: { size_t k = num(); S r; std::vector<T> rr; for (size_t i = 0; i < k; i++) { T t = mk<T>(g.next()); r.push_back(t); rr.push_back(t); } log("insert seq&&(%zu,%zu) n=%zu;", p, k, n); auto it = s.insert(s.begin() + p, std::move(r)); v.insert(v.begin() + p, rr.begin(), rr.end()); CHECK(it - s.begin() == (ssize_t)p, "insert(sequence) position"); break; }
      case 9: { std::list<T> r; size_t k = num() % 50; for (size_t i = 0; i < k; i++) r.push_back(mk<T>(g.next())); log("insert list(%zu,%zu) n=%zu;", p, k, n); auto it = s.insert(s.begin() + p, r.begin(), r.end()); v.insert(v.begin() + p, r.begin(), r.end()); CHECK(it - s.begin() == (ssize_t)p, "insert(list) position"); break; }
      case 10: if (n) { size_t i = g.below(n); log("erase(%zu) n=%zu;", i, n); auto it = s.erase(s.begin() + i); v.erase(v.begin() + i); CHECK(it - s.begin() == (ssize_t)i, "erase returns position %zd, expected %zu", it - s.begin(), i); } break;
      case 11: { size_t a = g.below(n + 1), b = g.range(a, n); log("erase(%zu,%zu) n=%zu;", a, b, n); auto it = s.erase(s.begin() + a, s.begin() + b); v.erase(v.begin() + a, v.begin() + b); CHECK(it - s.begin() == (ssize_t)a, "erase(range) position"); break; }
      case 12: { size_t k = num(); T t = mk<T>(g.next()); log("append(%zu copies) n=%zu;", k, n); auto it = s.append(k, t); v.insert(v.end(), k, t); CHECK(it - s.begin() == (ssize_t)n, "append position"); break; }
      case 13: if (n) { size_t k = num(), i = g.below(n); log("append(%zu copies of s[%zu]) n=%zu;", k, i, n); T t = v[i]; s.append(k, s[i]); v.insert(v.end(), k, t); } break;
      case 14: { size_t k = num(); std::vector<T> r; for (size_t i = 0; i < k; i++) r.push_back(mk<T>(g.next())); log("append range %zu n=%zu;", k, n); auto it = s.append(r.begin(), r.end()); v.insert(v.end(), r.begin(), r.end()); CHECK(it - s.begin() == (ssize_t)n, "append(range) position"); break; }
      case 15: { size_t k = num(); S r; std::vector<T> rr; for (size_t i = 0; i < k; i++) { T t = mk<T>(g.next()); r.push_back(t); rr.push_back(t); } log("append seq&& %zu n=%zu;", k, n); auto it = s.append(std::move(r)); v.insert(v.end(), rr.begin(), rr.end()); CHECK(it - s.begin() == (ssize_t)n, "append(seq&&) position"); break; }
      case 16: { size_t k = num(); S r; for (size_t i = 0; i < k; i++) r.push_back(mk<T>(g.next())); log("append seq& %zu n=%zu;", k, n); std::vector<T> rr(r.begin(), r.end()); s.append(r); v.insert(v.end(), rr.begin(), rr.end()); CHECK(same(r, rr), "append changed its argument"); break; }
      case 17: { size_t k = num(); T t = mk<T>(g.next()); log("resize(%zu) n=%zu;", k, n); s.resize(k, t); v.resize(k, t); break; }
      case 18: if (n) { size_t k = n + num(), i = g.below(n); log("resize(%zu,s[%zu]) n=%zu;", k, i, n); T t = v[i]; s.resize(k, s[i]); v.resize(k, t); } break;
      case 19: { size_t k = num() + g.below(40); log("reserve(%zu) n=%zu;", k, n); s.reserve(k); CHECK(s.capacity() >= k, "reserve(%zu) gives capacity %zu", k, s.capacity()); break; }
      case 20: { size_t k = g.below(n + 1); log("pop_tail(%zu) n=%zu;", k, n); auto t = s.pop_tail(k); std::vector<T> e(v.end() - k, v.end()); v.resize(n - k, mk<T>(0)); expect_same(t, e, "pop_tail"); break; }
      case 21: if (n) { log("pop_back n=%zu;", n); s.pop_back(); v.pop_back(); } break;
      case 22: { log("clear n=%zu;", n); if (g.coin(3)) { s.clear(); v.clear(); } break; }
      case 23: { size_t k = num(); T t = mk<T>(g.next()); log("assign(%zu copies) n=%zu;", k, n); s.assign(k, t); v.assign(k, t); break; }
      case 24: if (n) { size_t k = num(), i = g.below(n); log("assign(%zu copies of s[%zu]) n=%zu;", k, i, n); T t = v[i]; s.assign(k, s[i]); v.assign(k, t); } break;
      case 25: { size_t k = num(); std::vector<T> r; for (size_t i = 0; i < k; i++) r.push_back(mk<T>(g.next())); log("assign range %zu n=%zu;", k, n); s.assign(r.begin(), r.end()); v = r; break; }
      case 26: { log("copy/move/self n=%zu;", n); S c(s); CHECK(same(c, v), "copy constructor"); CHECK(c == s, "copy compares unequal"); S d; d = s; CHECK(same(d, v), "copy assignment"); S e(std::move(c)); CHECK(same(e, v), "move constructor"); CHECK(c.empty(), "moved-from sequence is not empty"); d = std::move(e); CHECK(same(d, v), "move assignment"); auto& al = s; s = al; CHECK(same(s, v), "self assignment"); if (d.size()) { d[0] = mk<T>(g.next()); CHECK(same(s, v), "copies share storage"); } c.push_back(mk<T>(1)); CHECK(c.size() == 1, "reuse after move"); break; }
      case 27: { size_t k = num(); S o(k, mk<T>(5)); std::vector<T> ov(k, mk<T>(5)); log("swap with %zu n=%zu;", k, n); if (g.coin()) s.swap(o); else std::swap(s, o); std::swap(v, ov); CHECK(same(o, ov), "swap: other side"); if (g.coin()) { s.swap(o); std::swap(v, ov); } break; }
      case 28: { log("compare n=%zu;", n); S o(v.begin(), v.end()); CHECK(s == o && !(s != o) && !(s < o), "equal sequences compare unequal"); 
        if (n) { std::vector<T> w = v; size_t i = g.below(n); w[i] = mk<T>(g.next()); S q(w.begin(), w.end()); CHECK((s == q) == (v == w), "== disagrees with lists"); CHECK((s < q) == std::lexicographical_compare(v.begin(), v.end(), w.begin(), w.end()), "< disagrees with lists"); w = v; w.pop_back(); S q2(w.begin(), w.end()); CHECK(!(s == q2) && q2 < s && !(s < q2), "prefix comparison"); } break; }
      case 29: { size_t a = g.below(n + 1), b = g.range(a, n); log("cut n=%zu;", n); auto c = s.subseq(a, b); CHECK(same(c, std::vector<T>(v.begin() + a, v.begin() + b)), "subseq"); auto c2 = s.cut(a, b); CHECK(c2.size() == b - a, "cut"); auto hd = s.head(a); CHECK(hd.size() == a && (a == 0 || hd[a - 1] == v[a - 1]), "head"); auto tl = s.tail(b - a); CHECK(tl.size() == b - a && (b == a || tl[0] == v[n - (b - a)]), "tail");
        auto it = s.emplace(s.begin() + p, mk<T>(9)); v.insert(v.begin() + p, mk<T>(9)); CHECK(it - s.begin() == (ssize_t)p, "emplace position"); s.emplace_back(mk<T>(8)); v.push_back(mk<T>(8)); break; }
    }
    chk();
  }
}
template <class T> static void all(const char* kind, u64 sd, int steps, size_t maxn) {
  history<sequence<T>, T>(kind, sd, steps, maxn);
  if constexpr (std::is_trivial_v<T> || std::is_same_v<T, Odd>) { std::string k = std::string(kind) + "(short)"; history<parlay::short_sequence<T>, T>(k.c_str(), sd, steps, maxn); }
}
TEST(histories) {
  u64 base = seed * 1000;
  for (int r = 0; more(0.75) || r < 6; r++) { u64 sd = base + r; int st = 30 + (r % 5) * 20; size_t m = r % 7 == 6 ? 9000 : r % 3 == 2 ? 300 : 20;
    all<int>("int", sd, st, m); all<char>("char", sd, st, m); all<u64>("u64", sd, st, m); all<Odd>("3-byte", sd, st, m);
    all<std::string>("string", sd, st, std::min<size_t>(m, 2000)); { LifeScope ls("sequence history"); history<sequence<Tracked>, Tracked>("tracked", sd, st, std::min<size_t>(m, 500)); ls.end(); } }
}
TEST(big_elements) {
  for (int r = 0; r < 4; r++) history<sequence<Big>, Big>("10000-byte elements", seed + r, 25, 4);
  begin("comparison of two large-element sequences"); sequence<Big> a(3, Big(1)), b(3, Big(1)); CHECK(a == b, "equal"); b[2] = Big(2); CHECK(!(a == b), "different");
}
TEST(inline_heap_crossing) {
  for (size_t n = 0; n <= 20; n++) for (size_t m = 0; m <= 20; m++) {
    begin("chars of size %zu then %zu", n, m); parlay::chars a(n, 'x'), b(m, 'y');
    parlay::chars c = a; c.append(b); CHECK(c.size() == n + m, "append"); for (size_t i = 0; i < n + m; i++) CHECK(c[i] == (i < n ? 'x' : 'y'), "append content");
    std::swap(a, b); CHECK(a.size() == m && b.size() == n, "swap"); for (char ch : a) CHECK(ch == 'y', "swap content"); for (char ch : b) CHECK(ch == 'x', "swap content");
    a = b; CHECK(same(a, b), "assign"); a = std::move(c); CHECK(a.size() == n + m, "move assign"); a.resize(n, 'z'); CHECK(a.size() == n, "resize"); a.resize(m + n, 'z'); CHECK(a.size() == m + n && (m == 0 || a[n + m - 1] == 'z'), "resize up");
    parlay::chars d(a.begin(), a.end()); CHECK(d == a, "range constructor"); d.insert(d.begin() + n, 'q'); CHECK(d.size() == n + m + 1 && d[n] == 'q', "insert"); d.erase(d.begin() + n); CHECK(d == a, "erase undoes insert");
    CHECK((parlay::to_sequence(a).size() == a.size()), "to_sequence");
  }
}
TEST(large_comparisons) {
  Rng g(seed);
  for (size_t n : {1000, 1024, 1025, 3072, 8191, 8192, 8193, 20000, 24576, 24577, 100000}) for (int r = 0; r < 6; r++) {
    sequence<char> a(n, 'a'), b(n, 'a'); size_t p = r == 0 ? n : r == 1 ? 0 : r == 2 ? n - 1 : g.below(n); begin("comparison n=%zu difference at %zu", n, p);
    if (p < n) b[p] = 'b'; CHECK((a == b) == (p == n), "=="); CHECK((a < b) == (p < n), "<"); CHECK((a != b) == (p < n), "!=");
    sequence<u64> c(n, 7), d(n, 7); if (p < n) d[p] = 6; CHECK((c == d) == (p == n), "== on u64"); CHECK((d < c) == (p < n), "< on u64"); }
}
TEST(move_only_elements) {
  begin("move-only elements"); sequence<MoveOnly> s; for (int i = 0; i < 100; i++) s.emplace_back(MoveOnly(i)); for (int i = 0; i < 100; i++) CHECK(s[i].get() == i, "emplace_back");
  s.insert(s.begin() + 10, MoveOnly(-5)); CHECK(s[10].get() == -5 && s[11].get() == 10 && s.size() == 101, "insert rvalue"); s.erase(s.begin() + 10); for (int i = 0; i < 100; i++) CHECK(s[i].get() == i, "erase");
  auto t = s.pop_tail(40); CHECK(t.size() == 40 && t[0].get() == 60 && s.size() == 60, "pop_tail"); s.append(std::move(t)); for (int i = 0; i < 100; i++) CHECK(s[i].get() == i, "append rvalue"); 
}
TEST(nested) {
  begin("sequence of sequences"); sequence<sequence<int>> s; for (int i = 0; i < 200; i++) s.push_back(sequence<int>(i % 30, i)); for (int i = 0; i < 200; i++) { CHECK(s[i].size() == (size_t)i % 30, "inner size"); for (int x : s[i]) CHECK(x == i, "inner element"); }
  auto c = s; s[3][1] = 99; CHECK(c[3][1] == 3, "deep copy"); s.insert(s.begin() + 5, s[150]); CHECK(s[5].size() == 0 && s[6].size() == 5, "insert of own element (150 mod 30 = 0)"); s.push_back(s[29]); CHECK(s.back() == s[29], "push_back of own element");
}
struct alignas(256) Wide { int x; };
TEST(overaligned_elements) {
  begin("element type with alignment 256");
  for (int k = 0; k < 8; k++) { sequence<Wide> s(1 + k); CHECK(((uintptr_t)s.data()) % 256 == 0, "elements of a type aligned to 256 bytes are stored misaligned"); }
}
MAIN
