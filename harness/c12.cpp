#include "h.h"
#include <parlay/delayed.h>
#include <parlay/primitives.h>
namespace d = parlay::delayed; namespace id = parlay::internal::delayed;
using V = std::vector<i64>; using S = parlay::sequence<i64>;
static S src(size_t n, u64 sd) { S s(n); Rng g(sd); for (size_t i = 0; i < n; i++) s[i] = (i64)g.below(1000) - 300; return s; }
static V vec(const S& s) { return V(s.begin(), s.end()); }
// every terminal operation on a delayed sequence of integers
template <class D> static void term(D&& x, const V& e, const char* what) {
  CHECK((size_t)parlay::size(x) == e.size(), "%s: size %zu, expected %zu", what, (size_t)parlay::size(x), e.size());
  auto s = d::to_sequence(x); expect_same(V(s.begin(), s.end()), e, what);
  auto s2 = d::to_sequence<i64>(x); expect_same(V(s2.begin(), s2.end()), e, what);
  i64 sum = 0; for (i64 v : e) sum += v; CHECK(d::reduce(x) == sum, "%s: reduce gave %lld, expected %lld", what, (long long)d::reduce(x), (long long)sum);
  // an associative operation that is not commutative: affine maps
  using A = std::pair<u64, u64>; auto op = parlay::binary_op([](A a, A b) { return A(a.first * b.first, a.second * b.first + b.second); }, A(1, 0)); A r(1, 0); for (i64 v : e) { r = op(r, A(2 * v + 1, v)); }
  CHECK(d::reduce(d::map(x, [](i64 v) { return A(2 * v + 1, v); }), op) == r, "%s: ordered reduce", what);
  std::atomic<i64> fs{0}; std::atomic<size_t> fc{0}; d::for_each(x, [&](i64 v) { fs += v; fc++; }); CHECK(fs == sum && fc == e.size(), "%s: for_each", what);
  std::vector<std::atomic<i64>> cell(e.size()); 
  if constexpr (parlay::is_block_iterable_range_v<D>) {
    size_t nb = id::num_blocks(x), k = 0; 
    for (size_t b = 0; b < nb; b++) { auto it = id::begin_block(x, b), en = id::end_block(x, b); for (; it != en; ++it) { CHECK(k < e.size() && (i64)*it == e[k], "%s: iteration from block %zu, element %zu", what, b, k); k++; } }
    CHECK(k == e.size(), "%s: blocks hold %zu elements", what, k);
    // from each block on to the end
    for (size_t b = 0; b < nb; b += 1 + nb / 3) { size_t k = b * id::block_size; auto it = id::begin_block(x, b), en = id::end_block(x, nb - 1); for (; it != en; ++it) { CHECK(k < e.size() && (i64)*it == e[k], "%s: iteration across blocks from %zu", what, b); k++; } CHECK(k == e.size(), "%s: iteration across blocks from %zu", what, b); }
  }
}
static V vmap(const V& v) { V r; for (i64 x : v) r.push_back(3 * x + 1); return r; }
static V vfil(const V& v, i64 m) { V r; for (i64 x : v) if (((x % m) + m) % m == 0) r.push_back(x); return r; }
static V vscan(const V& v, bool inc) { V r; i64 a = 0; for (i64 x : v) { if (inc) { a += x; r.push_back(a); } else { r.push_back(a); a += x; } } return r; }
static auto F = [](i64 x) { return 3 * x + 1; };
struct Mod { i64 m; bool operator()(i64 x) const { return ((x % m) + m) % m == 0; } };
// a second layer on top of any delayed sequence
template <class D> static void layer(D& x, const V& e, const char* what) {
  term(x, e, what);
  term(d::map(x, F), vmap(e), (std::string(what) + " | map").c_str());
  { auto [s, t] = d::scan(x); term(s, vscan(e, false), (std::string(what) + " | scan").c_str()); i64 sum = 0; for (i64 v : e) sum += v; CHECK(t == sum, "%s: scan total", what); }
  term(d::scan_inclusive(x), vscan(e, true), (std::string(what) + " | scan_inclusive").c_str());
  i64 m = 1 + (i64)(e.size() % 4); term(d::filter(x, Mod{m}), vfil(e, m), (std::string(what) + " | filter").c_str());
  { V q; for (i64 v : vfil(e, 2)) q.push_back(v / 2); term(d::filter_op(x, [](i64 v) -> std::optional<i64> { if (((v % 2) + 2) % 2 == 0) return v / 2; return std::nullopt; }), q, (std::string(what) + " | filter_op").c_str()); }
  { V q; for (i64 v : e) q.push_back(v * 2); term(d::map(d::zip(x, x), [](auto&& t) -> i64 { return std::get<0>(t) + std::get<1>(t); }), q, (std::string(what) + " | zip").c_str()); }
  { V q; for (size_t i = 0; i < e.size(); i++) q.push_back((i64)i * 2 + e[i]); term(d::map(d::enumerate(x), [](auto&& t) -> i64 { return (i64)std::get<0>(t) * 2 + std::get<1>(t); }), q, (std::string(what) + " | enumerate").c_str()); 
    term(d::zip_with([](auto&& a, auto&& b) -> i64 { return (i64)a * 2 + b; }, parlay::iota<i64>((i64)e.size()), x), q, (std::string(what) + " | zip_with").c_str()); }
}
static V expect_nested(const std::vector<V>& vv) { V r; for (auto& v : vv) r.insert(r.end(), v.begin(), v.end()); return r; }
static void all(size_t n, u64 sd) {
  begin("compositions over %zu elements, seed %llu", n, (unsigned long long)sd);
  S s = src(n, sd); V v = vec(s);
#if IN_PART(1)
  layer(s, v, "sequence");
  { auto x = d::tabulate(n, [&](size_t i) { return s[i]; }); layer(x, v, "tabulate"); }
  { auto x = d::map(s, F); layer(x, vmap(v), "map"); }
  { auto x = d::map(S(s), F); layer(x, vmap(v), "map of temporary"); }
  { auto x = d::filter(s, Mod{3}); layer(x, vfil(v, 3), "filter"); }
  { auto x = d::filter(S(s), Mod{2}); layer(x, vfil(v, 2), "filter of temporary"); }
#endif
#if IN_PART(2)
  { auto x = d::scan_inclusive(s); layer(x, vscan(v, true), "scan_inclusive"); }
  { auto x = d::scan(s).first; layer(x, vscan(v, false), "scan"); }
  { auto x = d::scan(d::filter(d::map(S(s), F), Mod{5})).first; layer(x, vscan(vfil(vmap(v), 5), false), "map|filter|scan of temporaries"); }
  { auto y = d::map(d::filter(d::map(S(s), F), Mod{5}), F); auto x = y; auto z = std::move(y); term(x, vmap(vfil(vmap(v), 5)), "copy of map|filter|map"); term(z, vmap(vfil(vmap(v), 5)), "moved map|filter|map"); }
  { auto y = d::map(d::filter(d::tabulate(n, [w = v](size_t i) { return w[i]; }), Mod{2}), F); auto x = y; auto z = std::move(y); term(x, vmap(vfil(v, 2)), "copy of tabulate|filter|map"); term(z, vmap(vfil(v, 2)), "moved tabulate|filter|map"); }
  { auto y = d::map(d::scan_inclusive(S(s)), F); auto x = y; auto z = std::move(y); term(x, vmap(vscan(v, true)), "copy of scan|map"); term(z, vmap(vscan(v, true)), "moved scan|map"); }
#endif
}
#if IN_PART(3)
static void nested(size_t outer, int shape, u64 sd) {
  Rng g(sd); std::vector<V> vv(outer); size_t tot = 0;
  for (size_t i = 0; i < outer; i++) { size_t k = shape == 0 ? g.below(4) : shape == 1 ? (g.coin(50) ? g.below(3000) : 0) : shape == 2 ? (i + 1 == outer ? 5000 : 0) : shape == 3 ? (i == 0 ? 5000 : 0) : shape == 4 ? 1000 : shape == 5 ? 0 : g.below(500); if (tot + k > 60000) k = 0; tot += k; for (size_t j = 0; j < k; j++) vv[i].push_back((i64)g.below(1000)); }
  begin("flatten of %zu ranges, shape %d, %zu elements, seed %llu", outer, shape, tot, (unsigned long long)sd);
  parlay::sequence<S> ss; for (auto& v : vv) ss.push_back(S(v.begin(), v.end())); V e = expect_nested(vv);
  { auto x = d::flatten(ss); tot < 20000 ? layer(x, e, "flatten") : term(x, e, "flatten"); }
  { auto y = d::flatten(parlay::sequence<S>(ss)); auto x = y; auto z = std::move(y); term(x, e, "copy of flatten of temporaries"); term(z, e, "moved flatten of temporaries"); }
  { auto y = d::flatten(d::map(ss, [](const S& s) { return d::map(s, F); })); auto x = y; auto z = std::move(y); term(x, vmap(e), "copy of flatten of maps"); term(z, vmap(e), "moved flatten of maps"); }
  { auto y = d::flatten(d::tabulate(outer, [&](size_t i) { return S(ss[i]); })); auto z = std::move(y); term(z, e, "flatten of made sequences"); }
  { auto x = d::flatten(d::filter(ss, [](const S& s) { return s.size() % 2 == 0; })); V q; for (auto& v : vv) if (v.size() % 2 == 0) q.insert(q.end(), v.begin(), v.end()); term(x, q, "flatten of filtered sequences"); }
  { auto f = d::filter(ss, [](const S& s) { return s.size() > 0; }); term(d::map(d::flatten(f), F), vmap(e), "flatten of nonempty sequences"); }
  { auto x = d::flatten(d::map(d::scan_inclusive(d::tabulate(outer, [](size_t) { return (size_t)1; })), [&](size_t k) { return parlay::make_slice(ss[k - 1]); })); term(x, e, "flatten over a scan"); }
}
#endif
#if IN_PART(1) || IN_PART(2)
TEST(compositions) { Rng g(seed); for (size_t n : {0, 1, 2, 3, 100, 1999, 2000, 2001, 2047, 2048, 2049, 3999, 4000, 4001, 4095, 4096, 4097, 6001, 10000}) all(n, seed + n); }
#endif
#if IN_PART(3)
TEST(flattening) { for (size_t o : {0, 1, 2, 10, 100, 1999, 2000, 2001, 2048, 2049, 4000, 6100}) for (int sh = 0; sh < 7; sh++) nested(o, sh, seed + o * 7 + sh); }
#endif
#if IN_PART(2)
TEST(views) {
  for (size_t n : {0, 1, 5, 2000, 5000}) { begin("views %zu", n); S s = src(n, n); V v = vec(s); auto z = d::zip(s, parlay::iota<i64>((i64)n)); term(d::map(d::elements_view<0>(z), [](i64 x) { return x; }), v, "elements_view"); auto k = d::keys_view(z); V e; for (size_t i = 0; i < n; i++) e.push_back(i); term(d::values_view(z), e, "values_view"); term(k, v, "keys_view");
    S w = s; auto k2 = d::map(w, [](i64& x) -> i64& { return x; }); d::for_each(k2, [](i64& x) { x += 5; }); for (size_t i = 0; i < n; i++) CHECK(w[i] == v[i] + 5, "references through map"); d::apply(w, [](i64& x) { x -= 5; }); CHECK(same(w, v), "apply"); auto fv = d::filter(w, Mod{2}); d::apply(fv, [](i64& x) { x = 0; }); for (size_t i = 0; i < n; i++) CHECK(w[i] == (Mod{2}(v[i]) ? 0 : v[i]), "references through filter"); 
    auto ds = parlay::delayed_seq<i64>(n, [&](size_t i) { return s[i]; }); term(ds, v, "delayed_seq"); size_t c = 0; for (i64 x : ds) CHECK(x == v[c++], "iteration"); for (size_t a = 0; a <= n; a += 1 + n / 4) for (size_t b = a; b <= n; b += 1 + n / 3) term(parlay::make_slice(s).cut(a, b), V(v.begin() + a, v.begin() + b), "slice"); }
  for (i64 lim : {0, 1, 7, 3000}) { begin("iota %lld", (long long)lim); V e; for (i64 i = 0; i < lim; i++) e.push_back(i); term(d::iota<i64>(lim), e, "iota"); }
  Rng g(seed + 9); for (int i = 0; i < 12; i++) { size_t a = g.below(6000), b = g.below(6000); begin("zip %zu %zu", a, b); S s = src(a, a), t = src(b, b + 1); V e; for (size_t k = 0; k < std::min(a, b); k++) e.push_back(s[k] * 7 + t[k]); auto f = [](auto&& p) -> i64 { return std::get<0>(p) * 7 + std::get<1>(p); }; term(d::map(d::zip(s, t), f), e, "zip of unequal lengths"); auto fs = d::filter(s, Mod{2}), ft = d::filter(t, Mod{3}); V vs = vfil(vec(s), 2), vt = vfil(vec(t), 3); V q; for (size_t k = 0; k < std::min(vs.size(), vt.size()); k++) q.push_back(vs[k] * 7 + vt[k]); term(d::map(d::zip(fs, ft), f), q, "zip of filters"); V w; for (size_t k = 0; k < std::min(vs.size(), b); k++) w.push_back(vs[k] * 7 + t[k]); term(d::map(d::zip(fs, t), f), w, "zip of filter and sequence"); V w2; for (size_t k = 0; k < std::min(vt.size(), a); k++) w2.push_back(s[k] * 7 + vt[k]); term(d::map(d::zip(s, ft), f), w2, "zip of sequence and filter"); }
}
TEST(scan_monoids) { for (size_t n : {0, 1, 2000, 2001, 4001}) { begin("scan with a monoid, %zu", n); S s = src(n, n); V v = vec(s); auto [x, t] = d::scan(s, parlay::maximum<i64>()); V e; i64 a = std::numeric_limits<i64>::lowest(); for (i64 y : v) { e.push_back(a); a = std::max(a, y); } auto q = d::to_sequence(x); CHECK(same(V(q.begin(), q.end()), e) && t == a, "scan max"); auto m = d::scan_inclusive(s, [](i64 a, i64 b) { return std::max(a, b); }, std::numeric_limits<i64>::lowest()); auto q2 = d::to_sequence(m); e.push_back(a); if (n) e.erase(e.begin()); else e.clear(); CHECK(same(V(q2.begin(), q2.end()), e), "scan_inclusive max"); } }
#endif
TEST(random_fill) { Rng g(seed + 5); while (more(1.0)) { bool a = g.coin();
#if IN_PART(1) || IN_PART(2)
  if (a || PART) all(g.below(g.coin() ? 30 : 7000), g.next());
#endif
#if IN_PART(3)
  if (!a || PART) nested(g.below(g.coin() ? 50 : 5000), g.below(7), g.next());
#endif
} }
MAIN
