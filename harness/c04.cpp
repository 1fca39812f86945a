#include "h.h"
#include <parlay/primitives.h>
#include <parlay/delayed.h>
#include <parlay/alloc.h>
using T = Tracked; using S = parlay::sequence<T>;
static S src(size_t n, u64 sd, i64 m) { Rng g(sd); return parlay::tabulate(n, [&](size_t i) { return T((i64)((i * 2654435761u + sd) % m), (i64)i); }); }
static void alive(const S& s, size_t n) { CHECK(s.size() == n, "the input changed its size"); for (auto& x : s) x.get(); }
struct Lt { bool operator()(const T& a, const T& b) const { return a < b; } };
template <class F> static void op(const char* nm, size_t n, u64 sd, i64 m, F f) {
  begin("%s on %zu objects with %lld values, seed %llu", nm, n, (long long)m, (unsigned long long)sd);
  LifeScope ls(nm); { S s = src(n, sd, m); f(s); alive(s, s.size()); } ls.end();
}
static auto key = [](const T& a) -> unsigned { return (unsigned)a.get(); };
static auto odd = [](const T& a) { return a.get() % 2 == 1; };
static void algos(size_t n, u64 sd, i64 m) {
#define OP(nm, ...) op(nm, n, sd, m, [&](S& s) __VA_ARGS__)
  OP("copy", { S c(s); S d; d = s; alive(c, n); alive(d, n); S e(std::move(c)); d = std::move(e); alive(d, n); d = d; });
  OP("sort", { auto r = parlay::sort(s, Lt()); alive(r, n); alive(s, n); });
  OP("stable_sort", { auto r = parlay::stable_sort(s, Lt()); alive(r, n); alive(s, n); });
  OP("sort_inplace", { parlay::sort_inplace(s, Lt()); alive(s, n); });
  OP("stable_sort_inplace", { parlay::stable_sort_inplace(s, Lt()); alive(s, n); });
  OP("integer_sort", { auto r = parlay::integer_sort(s, key); alive(r, n); alive(s, n); });
  OP("integer_sort_inplace", { parlay::integer_sort_inplace(s, key); alive(s, n); });
  OP("stable_integer_sort", { auto r = parlay::stable_integer_sort(s, key); alive(r, n); alive(s, n); });
  OP("stable_integer_sort_inplace", { parlay::stable_integer_sort_inplace(s, key); alive(s, n); });
  OP("counting_sort", { auto r = parlay::counting_sort(s, (size_t)m, key); alive(r.first, n); alive(s, n); });
  OP("counting_sort_inplace", { parlay::counting_sort_inplace(s, (size_t)m, key); alive(s, n); });
  OP("filter", { auto r = parlay::filter(s, odd); alive(r, r.size()); alive(s, n); });
  OP("remove_if", { auto r = parlay::remove_if(s, odd); alive(r, r.size()); });
  OP("pack", { auto fl = parlay::map(s, odd); auto r = parlay::pack(s, fl); alive(r, r.size()); });
  OP("pack_into_uninitialized", { auto fl = parlay::map(s, odd); size_t c = parlay::count_if(fl, [](bool b) { return b; }); auto out = parlay::sequence<T>::uninitialized(c); parlay::pack_into_uninitialized(s, fl, out); alive(out, c); auto o2 = parlay::sequence<T>::uninitialized(c); parlay::filter_into_uninitialized(s, o2, odd); alive(o2, c); });
  OP("unique", { auto r = parlay::unique(s); alive(r, r.size()); });
  OP("reverse", { auto r = parlay::reverse(s); alive(r, n); parlay::reverse_inplace(s); });
  OP("rotate and append", { auto r = parlay::rotate(s, n / 3); alive(r, n); auto a = parlay::append(s, r); alive(a, 2 * n); });
  OP("reduce and scan", { auto ad = parlay::binary_op([](T a, T b) { return T(a.get() + b.get()); }, T(0)); auto r = parlay::reduce(s, ad); r.get(); auto [sc, tot] = parlay::scan(s, ad); alive(sc, n); auto si = parlay::scan_inclusive(s, ad); alive(si, n); S c(s); parlay::scan_inplace(c, ad); alive(c, n); parlay::scan_inclusive_inplace(c, ad); alive(c, n); });
  OP("merge", { auto a = parlay::sort(s, Lt()); auto b = parlay::map(a, [](const T& x) { return T(x.get() + 1); }); auto r = parlay::merge(a, b, Lt()); alive(r, 2 * n); alive(a, n); alive(b, n); });
  OP("group_by_key", { auto r = parlay::group_by_key(parlay::map(s, [](const T& x) { return std::make_pair((int)x.get(), x); })); size_t c = 0; for (auto& [k, v] : r) { alive(v, v.size()); c += v.size(); } CHECK(c == n, "group sizes"); });
  OP("group_by_key_ordered", { auto r = parlay::group_by_key_ordered(parlay::map(s, [](const T& x) { return std::make_pair((int)x.get(), x); })); size_t c = 0; for (auto& [k, v] : r) { alive(v, v.size()); c += v.size(); } CHECK(c == n, "group sizes"); });
  OP("group_by_index", { auto r = parlay::group_by_index(parlay::map(s, [](const T& x) { return std::make_pair((size_t)x.get(), x); }), (size_t)m); size_t c = 0; for (auto& v : r) { alive(v, v.size()); c += v.size(); } CHECK(c == n, "group sizes"); });
  OP("reduce_by_key", { auto r = parlay::reduce_by_key(parlay::map(s, [](const T& x) { return std::make_pair((int)x.get(), x); }), parlay::binary_op([](T a, T b) { return T(a.get() + b.get()); }, T(0))); for (auto& p : r) p.second.get(); });
  OP("remove_duplicates_ordered", { auto r = parlay::remove_duplicates_ordered(s, Lt()); alive(r, r.size()); alive(s, n); });
  OP("flatten", { auto ss = parlay::tabulate(5, [&](size_t i) { return S(s); }); auto r = parlay::flatten(ss); alive(r, 5 * n); for (auto& x : ss) alive(x, n); auto r2 = parlay::flatten(std::move(ss)); alive(r2, 5 * n); });
  OP("split and map_split", { auto r = parlay::split_at(s, parlay::delayed_tabulate(n, [&](size_t i) { return i % 7 == 3; })); size_t c = 0; for (auto& v : r) { alive(v, v.size()); c += v.size(); } CHECK(c == n, "pieces"); });
  OP("kth_smallest and rank", { if (n) { auto k = parlay::kth_smallest_copy(s, n / 2, Lt()); k.get(); parlay::kth_smallest(s, n / 3, Lt())->get(); } parlay::rank(s, Lt()); });
  OP("random_shuffle", { auto r = parlay::random_shuffle(s); alive(r, n); });
  OP("delayed", { auto r = parlay::delayed::to_sequence(parlay::delayed::filter(s, odd)); alive(r, r.size()); auto q = parlay::delayed::to_sequence(parlay::delayed::map(parlay::delayed::filter(S(s), odd), [](const T& x) { return T(x.get() + 1); })); alive(q, q.size()); auto fo = parlay::delayed::filter_op(s, [](const T& x) -> std::optional<T> { if (x.get() % 2) return T(x); return std::nullopt; }); auto q2 = parlay::delayed::to_sequence(fo); alive(q2, q2.size()); auto ss = parlay::tabulate(3, [&](size_t i) { return S(s); }); auto q3 = parlay::delayed::to_sequence(parlay::delayed::flatten(ss)); alive(q3, 3 * n); auto sc = parlay::delayed::scan_inclusive(s, [](T a, const T& b) { return T(a.get() + b.get()); }, T(0)); auto q4 = parlay::delayed::to_sequence(sc); alive(q4, n); });
  OP("containers", { parlay::sequence<S> ss(3, s); ss.push_back(s); ss.insert(ss.begin() + 1, s); ss.erase(ss.begin()); ss.pop_back(); for (auto& x : ss) alive(x, n); auto t = ss.pop_tail(1); ss.resize(5, s); ss.clear(); s.reserve(3 * n + 1); s.append(S(s)); s.append(n / 2, T(5)); s.insert(s.begin() + s.size() / 2, T(4)); s.resize(n / 2, T(1)); s.assign(n, T(3)); auto sh = parlay::to_short_sequence(s); S e; e.swap(s); s.swap(e); });
  OP("tabulate and map", { auto r = parlay::map(s, [](const T& x) { return T(x.get() * 2); }); alive(r, n); auto r2 = parlay::to_sequence(parlay::delayed_map(s, [](const T& x) { return T(x.get()); })); alive(r2, n); auto o = S(n, T(0)); parlay::copy(s, o); auto f = S::from_function(n, [&](size_t i) { return T(s[i].get()); }); alive(f, n); S il{T(1), T(2), T(3)}; std::vector<T> v(s.begin(), s.end()); S rng(v.begin(), v.end()); alive(rng, n); });
  OP("type_allocator", { std::vector<T*> v; for (size_t i = 0; i < n && i < 500; i++) v.push_back(parlay::type_allocator<T>::create((i64)i)); for (auto p : v) { p->get(); parlay::type_allocator<T>::destroy(p); } auto a = parlay::sequence<std::unique_ptr<T>>::from_function(n, [](size_t i) { return std::make_unique<T>((i64)i); }); auto b = parlay::sort(parlay::map(a, [](auto& p) { return p->get(); })); a.clear(); });
}
static void moveonly(size_t n, u64 sd) { begin("move-only elements, %zu, seed %llu", n, (unsigned long long)sd); auto s = parlay::tabulate(n, [&](size_t i) { return MoveOnly((i64)((i * 7919 + sd) % 1000)); }); parlay::sort_inplace(s, [](auto& a, auto& b) { return a.get() < b.get(); }); i64 prev = -1; for (auto& x : s) { CHECK(x.p && x.get() >= prev, "a move-only object was lost by sort_inplace"); prev = x.get(); } parlay::stable_sort_inplace(s, [](auto& a, auto& b) { return b.get() < a.get(); }); for (auto& x : s) CHECK(x.p != nullptr, "a move-only object was lost"); parlay::integer_sort_inplace(s, [](auto& a) { return (unsigned)a.get(); }); prev = -1; for (auto& x : s) { CHECK(x.p && x.get() >= prev, "a move-only object was lost by integer_sort_inplace"); prev = x.get(); } s.push_back(MoveOnly(5)); s.insert(s.begin(), MoveOnly(6)); s.erase(s.begin()); auto t = s.pop_tail(1); s.append(std::move(t)); CHECK(s.size() == n + 1, "size"); for (auto& x : s) CHECK(x.p != nullptr, "a move-only object was lost"); }
TEST(algorithms) { Rng g(seed); for (size_t n : {0, 1, 2, 3, 5, 7, 8, 14, 15, 16, 17, 20, 24, 25, 100, 255, 256, 257, 1000, 2000, 2001, 4000}) for (i64 m : {1, 4, 1000}) { if (n > 300 && m == 4) continue; algos(n, g.next() % 1000, m); } for (size_t n : {8193, 20001, 33000}) algos(n, g.next() % 1000, 300); }
TEST(moving) { for (size_t n : {0, 1, 2, 14, 15, 20, 24, 25, 256, 257, 1000, 3000, 10000, 40000}) moveonly(n, seed); }
TEST(uninitialized_sequences) {
  for (size_t n : {0, 1, 10, 1000, 100000}) {
    begin("moving uninitialized sequences of %zu elements", n);
    using U = parlay::internal::uninitialized_sequence<size_t>;
    U a(n); for (size_t i = 0; i < n; i++) a[i] = i;
    { U b(std::move(a)); CHECK(b.size() == n && a.size() == 0, "moved sequence has the wrong size"); U c(3); c = std::move(b); CHECK(c.size() == n, "assigned sequence has the wrong size");
      for (size_t i = 0; i < n; i++) CHECK(c[i] == i, "moving lost an element"); a.swap(c); }
    CHECK(a.size() == n, "swap lost the elements"); for (size_t i = 0; i < n; i++) CHECK(a[i] == i, "swap lost an element");
  }
}
TEST(random_fill) { Rng g(seed + 5); while (more(1.0)) { algos(g.below(g.coin() ? 40 : 12000), g.next() % 100000, 1 + g.below(500)); moveonly(g.below(20000), g.next() % 1000); } }
MAIN
