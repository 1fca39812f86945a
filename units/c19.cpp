// Relocation.
#include <parlay/relocation.h>
#include <parlay/sequence.h>
#include <parlay/internal/uninitialized_storage.h>
#include "common.h"
extern "C" { void gh_construct(u64 live); void gh_use(u64 live); void gh_destroy(u64 live); void gh_two(const void*, const void*); }
// an object whose lifetime is tracked by the specification: not trivially relocatable
struct M {
  u64 v, live;
  M(M&& o) noexcept { gh_construct(live); gh_use(o.live); v = o.v; live = 1; }
  ~M() { gh_destroy(live); live = 0; }
};
struct P2 { u64 a, b; };
struct P3 { u64 a, b, c; };
struct W { unsigned int x; };
#define RN(NAME, T) \
  void vc_n_##NAME(T* a, size_t n, T* b) { auto r = parlay::uninitialized_relocate_n(a, n, b); gh_two(r.first, r.second); } \
  void vc_r_##NAME(T* a, size_t n, T* b) { auto r = parlay::uninitialized_relocate(a, a + n, b); gh_two(a + n, r); } \
  void vc_at_##NAME(T* a, size_t i, T* b, size_t j) { parlay::relocate_at(a + i, b + j); }
extern "C" {
RN(u64, u64)
RN(p2, P2)
RN(p3, P3)
RN(w, W)
RN(m, M)
}
