#include "h.h"
#include <list>
#include <parlay/relocation.h>
#include <parlay/sequence.h>
#include <parlay/internal/uninitialized_storage.h>
template <size_t N, size_t A = 1> struct alignas(A) Blob { unsigned char b[N]; static Blob of(u64 x) { Blob r; for (size_t i = 0; i < N; i++) r.b[i] = (unsigned char)(x * 131 + i * 7 + (x >> (i % 8))); return r; } bool eq(u64 x) const { auto r = of(x); return !memcmp(b, r.b, N); } };
struct Uniq { std::unique_ptr<u64> p; static Uniq of(u64 x) { return Uniq{std::make_unique<u64>(x)}; } bool eq(u64 x) const { return p && *p == x; } };
struct Str { std::string s; static Str of(u64 x) { return Str{std::string(x % 50, 'a' + x % 26) + std::to_string(x)}; } bool eq(u64 x) const { return s == of(x).s; } };
struct Tr { Tracked t; static Tr of(u64 x) { return Tr{Tracked((i64)x)}; } bool eq(u64 x) const { return t.get() == (i64)x; } };
struct SelfP { SelfP* me; u64 v; SelfP(u64 x) : me(this), v(x) {} SelfP(SelfP&& o) noexcept : me(this), v(o.v) { if (o.me != &o) fail("moved from an object that is not where it says"); o.v = 0; } ~SelfP() { if (me != this) fail("destroyed an object that is not where it says"); me = nullptr; } static SelfP of(u64 x) { return SelfP(x); } bool eq(u64 x) const { return me == this && v == x; } };
template <class T> struct Raw { T* p; size_t n; unsigned char* m; Raw(size_t k) : n(k) { m = (unsigned char*)aligned_alloc(4096, ((k + 4) * sizeof(T) / 4096 + 3) * 4096); size_t off = 128 + (sizeof(T) > 128 ? sizeof(T) : 0); off = (off + alignof(T) - 1) / alignof(T) * alignof(T); memset(m, 0xA5, ((k + 4) * sizeof(T) / 4096 + 3) * 4096); p = (T*)(m + off); } ~Raw() { free(m); }
  void guard(const char* w) { for (unsigned char* q = m; q < (unsigned char*)p; q++) CHECK(*q == 0xA5, "%s: byte before the range changed", w); unsigned char* e = (unsigned char*)(p + n); for (int i = 0; i < 64; i++) CHECK(e[i] == 0xA5, "%s: byte after the range changed", w); } };
template <class T> static void rel(const char* name, size_t n, int how, u64 sd) {
  begin("%s (%zu bytes, alignment %zu): relocate %zu objects, form %d", name, sizeof(T), alignof(T), n, how);
  LifeScope ls(name);
  { Raw<T> a(n), b(n);
    for (size_t i = 0; i < n; i++) new (a.p + i) T(T::of(sd + i));
    if (how == 0) { auto [x, y] = parlay::uninitialized_relocate_n(a.p, n, b.p); CHECK(x == a.p + n && y == b.p + n, "returned iterators"); }
    else if (how == 1) { auto y = parlay::uninitialized_relocate(a.p, a.p + n, b.p); CHECK(y == b.p + n, "returned iterator"); }
    else if (how == 2) for (size_t i = 0; i < n; i++) parlay::relocate_at(a.p + i, b.p + i);
    else if (how == 3) { auto y = parlay::uninitialized_relocate(std::make_reverse_iterator(a.p + n), std::make_reverse_iterator(a.p), std::make_reverse_iterator(b.p + n)); CHECK(y == std::make_reverse_iterator(b.p), "returned iterator"); }
    a.guard("source"); b.guard("destination");
    for (size_t i = 0; i < n; i++) CHECK(b.p[i].eq(sd + i), "object %zu has not the value of its source", i);
    for (size_t i = 0; i < n; i++) b.p[i].~T(); }
  ls.end();
}
template <class T> static void types(const char* name, Rng& g, bool big = true) { for (size_t n : sizes(false)) if (n * sizeof(T) < 40000000) for (int h = 0; h < 4; h++) { if (n > 600 && (n % 3 != 0 || h == 2)) continue; rel<T>(name, n, h, g.next() >> 20); }
  size_t c = 1 + (1024 * sizeof(size_t) / sizeof(T)); for (size_t n : {c - 1, c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1, 5 * c + 3}) for (int h = 0; h < 4; h++) rel<T>(name, n, h, g.next() >> 20); }
template <size_t... N> static void blobs(Rng& g, std::index_sequence<N...>) { (rel<Blob<N + 1>>("blob", 1 + N % 37, 0, g.next()), ...); (rel<Blob<N + 1>>("blob", 3, 2, g.next()), ...); }
TEST(kinds) { Rng g(seed); types<Blob<1>>("byte", g); types<Blob<3>>("3 bytes", g); types<Blob<8, 8>>("word", g); types<Blob<24, 8>>("3 words", g); types<Blob<64, 64>>("cache line", g); types<Blob<100, 4>>("100 bytes", g); types<Blob<8191>>("8191", g); types<Blob<8192>>("8192", g); types<Blob<8193>>("8193", g); types<Blob<20000, 32>>("20000", g); types<Uniq>("unique_ptr holder", g); types<Str>("string holder", g); types<Tr>("tracked", g); types<SelfP>("self-referencing", g); }
TEST(all_small_sizes) { Rng g(seed + 1); blobs(g, std::make_index_sequence<140>()); }
TEST(unptr) { begin("unique_ptr itself"); for (size_t n : {0, 1, 2, 1000, 3000}) { Raw<std::unique_ptr<u64>> a(n), b(n); for (size_t i = 0; i < n; i++) new (a.p + i) std::unique_ptr<u64>(new u64(i)); parlay::uninitialized_relocate_n(a.p, n, b.p); b.guard("unique_ptr"); for (size_t i = 0; i < n; i++) { CHECK(*b.p[i] == i, "value"); b.p[i].~unique_ptr(); } }
  begin("list to array"); { LifeScope ls("list"); { std::vector<char> raw(100 * sizeof(Tracked) + 64); Tracked* d = (Tracked*)(((uintptr_t)raw.data() + 63) / 64 * 64); Tracked* s2 = (Tracked*)malloc(100 * sizeof(Tracked)); for (int i = 0; i < 100; i++) new (s2 + i) Tracked(i); parlay::uninitialized_relocate_n(s2, 100, d); for (int i = 0; i < 100; i++) CHECK(d[i].get() == i, "value"); std::destroy(d, d + 100); free(s2); } ls.end(); } }
TEST(random_fill) { Rng g(seed + 2); while (more(1.0)) { size_t n = g.below(g.coin() ? 40 : 6000); int h = g.below(4); u64 s = g.next() >> 20; switch (g.below(6)) { case 0: rel<Blob<5>>("5 bytes", n, h, s); break; case 1: rel<Blob<48, 16>>("48 bytes", n, h, s); break; case 2: rel<Uniq>("unique_ptr holder", n, h, s); break; case 3: rel<Str>("string holder", n, h, s); break; case 4: rel<Tr>("tracked", n, h, s); break; default: rel<SelfP>("self-referencing", n, h, s); } } }
MAIN
