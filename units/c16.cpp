// Random shuffles and permutations.
#include <parlay/primitives.h>
#include <parlay/random.h>
#include "common.h"
using parlay::make_slice;
extern "C" {
void vc_seq_shuffle(u64* a, size_t n, size_t s) { parlay::internal::seq_random_shuffle_(make_slice(a, a + n), parlay::random(s)); }
void vc_shuffle_(u64* a, u64* b, size_t n, size_t s) { parlay::internal::random_shuffle_(make_slice(a, a + n), make_slice(b, b + n), parlay::random(s)); }
void vc_random_shuffle(u64* a, size_t n, size_t s) { auto r = parlay::random_shuffle(make_slice(a, a + n), parlay::random(s)); gh_out(r.data(), r.size()); }
void vc_random_permutation(size_t n, size_t s) { auto r = parlay::random_permutation<size_t>(n, parlay::random(s)); gh_out(r.data(), r.size()); }
void gh_same(bool); void gh_eq(bool);
void vc_hash64(u64 x) { gh_val(parlay::hash64(x)); gh_eq(parlay::hash64(x) == parlay::hash64(x)); }
void vc_gen_call(size_t s) { parlay::random_generator g(s), h(s); for (int k = 0; k < 3; k++) { size_t x = g(), y = h(); gh_val(x); gh_eq(x == y); } }
void vc_gen_seed(size_t s, size_t t) { parlay::random_generator g(t), h(s); g.seed(s); size_t x = g(), y = h(); gh_val(x); gh_eq(x == y); parlay::random_generator d, z(0); gh_eq(d() == z()); }
void vc_gen_index(size_t s, size_t i) { const parlay::random_generator g(s); parlay::random_generator c(s), a = g[i], b = c[i]; size_t x = a(), y = b(); gh_val(x); gh_eq(x == y);
  parlay::random_generator g2 = g; gh_same(g2() == parlay::random_generator(s)()); parlay::random_generator n = g[i][i + 1]; gh_val(n()); }
void vc_random_fork(size_t s, size_t i) { const parlay::random g(s), h(s); size_t x = g.fork(i)[0], y = h.fork(i)[0]; gh_val(x); gh_eq(x == y); gh_same(g[0] == h[0]); gh_val(g.fork(i).fork(i)[i]); }
void vc_random_next(size_t s) { const parlay::random g(s); size_t x = g.next()[0], y = parlay::random(s).next()[0]; gh_val(x); gh_eq(x == y); gh_same(g[0] == parlay::random(s)[0]); }
void vc_random_ith(size_t s, size_t i) { const parlay::random g(s); gh_val(g.ith_rand(i)); gh_eq(g.ith_rand(i) == g[i]); gh_same(g[i] == parlay::random(s)[i]); }
void vc_random_rand(size_t s) { parlay::random g(s); size_t x = g.rand(), y = parlay::random(s).rand(); gh_val(x); gh_eq(x == y); }
u64 vc_log2_up(u64 n) { return parlay::log2_up(n); }
void vc_pair_layout() { using P = std::pair<parlay::sequence<size_t>, bool>; alignas(P) char b[sizeof(P)]; P* p = reinterpret_cast<P*>(b); gh_val((char*)&p->second - (char*)p); }
}
