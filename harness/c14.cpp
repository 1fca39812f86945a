#include "h.h"
#include <parlay/alloc.h>
#include <parlay/parallel.h>
#include <parlay/sequence.h>
#include <condition_variable>
using parlay::internal::memory_usage;
// a set of live blocks, each filled with its own pattern; overlap is found by patterns and by address order
struct Pool { std::map<uintptr_t, std::pair<size_t, unsigned char>> live;
  void add(void* p, size_t n, size_t al, unsigned char pat, const char* what) { auto a = (uintptr_t)p; CHECK(p, "%s: null", what); CHECK(a % al == 0, "%s: %p is not aligned to %zu", what, p, al); auto it = live.upper_bound(a); if (it != live.end()) CHECK(a + n <= it->first, "%s: block overlaps a live block", what); if (it != live.begin()) { --it; CHECK(it->first + it->second.first <= a, "%s: block overlaps a live block", what); } memset(p, pat, n); live[a] = {n, pat}; }
  void check(void* p, const char* what) { auto& [n, pat] = live.at((uintptr_t)p); for (size_t i = 0; i < n; i++) if (((unsigned char*)p)[i] != pat) fail("%s: byte %zu of a live block changed", what, i); }
  void del(void* p, const char* what) { check(p, what); live.erase((uintptr_t)p); } };
template <class A, class F> static void hist(const char* what, u64 sd, int steps, A alloc, F dealloc, size_t maxs) {
  Rng g(sd); Pool P; struct B { void* p; size_t n, al; }; std::vector<B> v; begin("%s: history of %d steps, seed %llu", what, steps, (unsigned long long)sd);
  for (int i = 0; i < steps; i++) { if (v.empty() || g.below(100) < (i % 400 < 200 ? 65 : 35)) { size_t n = g.coin(3) ? g.below(40) : g.coin() ? (size_t(1) << g.below(log2(maxs) + 1)) - g.below(3) + g.below(3) : g.below(g.coin(8) ? maxs : std::min<size_t>(maxs, 3000)); if (n > maxs) n = maxs; size_t al = size_t(1) << g.below(13); auto [p, q] = alloc(n, al); P.add(p, n, q, (unsigned char)(g.next() | 1), what); v.push_back({p, n, al}); } else { size_t k = g.below(v.size()); P.del(v[k].p, what); dealloc(v[k].p, v[k].n, v[k].al); v[k] = v.back(); v.pop_back(); } }
  for (auto& b : v) { P.del(b.p, what); dealloc(b.p, b.n, b.al); }
}
static void histories(u64 sd, int steps, size_t big) {
  auto before = memory_usage().first;
  hist("p_malloc", sd, steps, [](size_t n, size_t al) { return std::make_pair(parlay::p_malloc(n, al), al); }, [](void* p, size_t, size_t) { parlay::p_free(p); }, big);
  hist("p_malloc, default alignment", sd + 1, steps, [](size_t n, size_t) { return std::make_pair(parlay::p_malloc(n), alignof(std::max_align_t)); }, [](void* p, size_t, size_t) { parlay::p_free(p); }, big);
  hist("allocator<char>", sd + 2, steps, [](size_t n, size_t) { n = std::max<size_t>(n, 0); return std::make_pair((void*)parlay::allocator<char>().allocate(n), (size_t)1); }, [](void* p, size_t n, size_t) { parlay::allocator<char>().deallocate((char*)p, n); }, big);
  hist("pool_allocator", sd + 3, steps, [](size_t n, size_t) { void* p = parlay::internal::get_default_allocator().allocate(n); return std::make_pair(p, (size_t)16); }, [](void* p, size_t n, size_t) { parlay::internal::get_default_allocator().deallocate(p, n); }, big);
  CHECK(memory_usage().first == before, "used memory is %zu, it was %zu before", memory_usage().first, before);
}
struct alignas(256) Al256 { char c[300]; }; struct alignas(64) Al64 { char c[70]; }; struct S3 { char c[3]; }; struct S100 { char c[100]; }; struct alignas(4096) Page { char c[4096]; };
template <class T> static void ta(const char* nm, Rng& g) {
  begin("type_allocator<%s> of %zu bytes, alignment %zu", nm, sizeof(T), alignof(T)); size_t ub = parlay::type_allocator<T>::num_used_blocks(); Pool P; std::vector<T*> v; size_t tot = sizeof(T) > 1000 ? 300 : 6000;
  for (size_t i = 0; i < tot; i++) { if (v.empty() || g.below(100) < 60) { T* p = parlay::type_allocator<T>::alloc(); P.add(p, sizeof(T), alignof(T), (unsigned char)i, nm); v.push_back(p); } else { size_t k = g.below(v.size()); P.del(v[k], nm); parlay::type_allocator<T>::free(v[k]); v[k] = v.back(); v.pop_back(); } CHECK(parlay::type_allocator<T>::num_used_blocks() == ub + v.size() || i % 50, "num_used_blocks is %zu, expected %zu", parlay::type_allocator<T>::num_used_blocks(), ub + v.size()); }
  CHECK(parlay::type_allocator<T>::num_allocated_blocks() >= parlay::type_allocator<T>::num_used_blocks(), "more blocks used than allocated"); for (auto p : v) { P.del(p, nm); parlay::type_allocator<T>::free(p); } CHECK(parlay::type_allocator<T>::num_used_blocks() == ub, "used blocks do not return");
  { auto* o = parlay::type_allocator<std::pair<long, long>>::create(3l, 4l); CHECK(o->first == 3 && o->second == 4, "create"); parlay::type_allocator<std::pair<long, long>>::destroy(o); }
}
template <class T> static void al(const char* nm) { begin("allocator<%s>", nm); parlay::allocator<T> a; for (size_t n : {0, 1, 2, 3, 7, 100, 1000}) { T* p = a.allocate(n), *q = a.allocate(n); CHECK(n == 0 || ((uintptr_t)p % alignof(T) == 0 && (uintptr_t)q % alignof(T) == 0), "alignment"); if (n) { memset(p, 1, n * sizeof(T)); memset(q, 2, n * sizeof(T)); for (size_t i = 0; i < n * sizeof(T); i++) CHECK(((char*)p)[i] == 1 && ((char*)q)[i] == 2, "blocks overlap"); } a.deallocate(p, n); a.deallocate(q, n); } }
static void conc(u64 sd, int nt, int steps) {
  begin("%d threads allocate and free, each block freed by another thread, seed %llu", nt, (unsigned long long)sd); auto before = memory_usage().first; 
  struct B { unsigned char* p; size_t n; unsigned char pat; int kind; }; std::mutex m; std::vector<B> pool; std::vector<std::thread> th;
  size_t u0 = parlay::type_allocator<S100>::num_used_blocks();
  auto rel = [](B b) { for (size_t i = 0; i < b.n; i++) if (b.p[i] != b.pat) fail("a live block was overwritten (byte %zu of %zu)", i, b.n); if (b.kind == 0) parlay::p_free(b.p); else if (b.kind == 1) parlay::type_allocator<S100>::free((S100*)b.p); else parlay::allocator<char>().deallocate((char*)b.p, b.n); };
  for (int t = 0; t < nt; t++) th.emplace_back([&, t] { Rng g(sd * 31 + t); std::vector<B> mine; for (int i = 0; i < steps; i++) { if (i % 64 == 0) progress++; if (g.below(100) < (i % 2000 < 1000 ? 60 : 40)) { B b; b.kind = g.below(3); b.n = b.kind == 1 ? sizeof(S100) : 1 + g.below(g.coin(50) ? 100000 : 300); b.pat = (unsigned char)g.next(); b.p = b.kind == 0 ? (unsigned char*)parlay::p_malloc(b.n) : b.kind == 1 ? (unsigned char*)parlay::type_allocator<S100>::alloc() : (unsigned char*)parlay::allocator<char>().allocate(b.n); memset(b.p, b.pat, b.n); if (g.coin()) mine.push_back(b); else { std::lock_guard<std::mutex> l(m); pool.push_back(b); } } else { B b{}; if (g.coin() && !mine.empty()) { b = mine.back(); mine.pop_back(); } else { std::lock_guard<std::mutex> l(m); if (!pool.empty()) { size_t k = g.below(pool.size()); b = pool[k]; pool[k] = pool.back(); pool.pop_back(); } } if (b.p) rel(b); } } for (auto& b : mine) rel(b); });
  for (auto& t : th) t.join(); for (auto& b : pool) rel(b);
  CHECK(memory_usage().first == before, "used memory is %zu, it was %zu before", memory_usage().first, before); CHECK(parlay::type_allocator<S100>::num_used_blocks() == u0, "used blocks do not return");
}
TEST(every_size) { begin("p_malloc of every size up to 5000 and alignment up to 4096"); auto before = memory_usage().first; for (size_t n = 0; n < 5000; n += 1 + (n > 300) * 7) for (size_t a = 1; a <= 4096; a *= 2) { begin("p_malloc(%zu, %zu)", n, a); unsigned char* p = (unsigned char*)parlay::p_malloc(n, a); CHECK((uintptr_t)p % a == 0, "alignment of p_malloc(%zu, %zu)", n, a); memset(p, 0xff, n); unsigned char* q = (unsigned char*)parlay::p_malloc(n, a); memset(q, 0, n); for (size_t i = 0; i < n; i++) CHECK(p[i] == 0xff, "blocks overlap"); parlay::p_free(p); for (size_t i = 0; i < n; i++) CHECK(q[i] == 0, "block changed"); parlay::p_free(q); } CHECK(memory_usage().first == before, "used memory does not return"); }
TEST(history) { Rng g(seed); for (int i = 0; i < 6; i++) histories(g.next(), 1500, i == 0 ? size_t(1) << 24 : 70000); }
TEST(typed) { Rng g(seed + 1); ta<char>("char", g); ta<S3>("3 bytes", g); ta<long>("long", g); ta<S100>("100 bytes", g); ta<Al64>("64-aligned", g); ta<Al256>("256-aligned", g); ta<Page>("page", g); al<char>("char"); al<long>("long"); al<S3>("3 bytes"); al<Al64>("64-aligned"); al<Al256>("256-aligned"); al<Page>("page"); }
TEST(huge) { auto before = memory_usage().first; for (size_t n : {parlay::internal::default_allocator_max_pool_size - 1, parlay::internal::default_allocator_max_pool_size, parlay::internal::default_allocator_max_pool_size + 1, 2 * parlay::internal::default_allocator_max_pool_size + 5}) { begin("blocks of %zu bytes", n); char* p = (char*)parlay::p_malloc(n); p[0] = 1; p[n - 1] = 2; char* q = (char*)parlay::p_malloc(n); q[0] = 3; q[n - 1] = 4; CHECK(p[0] == 1 && p[n - 1] == 2, "overlap"); CHECK(memory_usage().first >= before + 2 * n, "usage does not count live blocks"); parlay::p_free(p); parlay::p_free(q); CHECK(memory_usage().first == before, "used memory does not return"); } }
TEST(concurrent) { Rng g(seed + 2); for (int i = 0; i < 3; i++) conc(g.next(), 6, 6000); }
TEST(clearing) { begin("clear and reuse"); for (int r = 0; r < 3; r++) { { parlay::internal::pool_allocator pa({16, 64, 1024, 65536}); std::vector<std::pair<void*, size_t>> v; for (size_t n : {1, 16, 17, 64, 65, 1000, 1024, 1025, 65536, 65537, 1000000}) { void* p = pa.allocate(n); memset(p, 1, n); v.push_back({p, n}); } CHECK(pa.stats().first > 0, "stats"); for (auto [p, n] : v) pa.deallocate(p, n); CHECK(pa.stats().first == 0, "stats return to zero, are %zu", pa.stats().first); pa.clear(); CHECK(pa.stats().first == 0, "stats after clear"); void* p = pa.allocate(100); memset(p, 1, 100); pa.deallocate(p, 100); } { parlay::internal::block_allocator ba(48, 16, 1000, 0); std::set<void*> s; for (int i = 0; i < 5000; i++) { void* p = ba.alloc(); memset(p, 7, 48); CHECK(s.insert(p).second, "a live block was handed out again"); } for (auto p : s) ba.free(p); CHECK(ba.num_used_blocks() == 0, "used blocks"); ba.clear(); CHECK(ba.num_allocated_blocks() == 0, "blocks after clear"); } } }
TEST(random_fill) { Rng g(seed + 3); while (more(1.0)) { histories(g.next(), 800, g.coin(10) ? size_t(1) << 22 : 60000); conc(g.next(), 2 + g.below(7), 3000); } }
MAIN
