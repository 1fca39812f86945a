// Allocators: size classes, headered blocks, free lists.
#include <bits/stdc++.h>
#include <functional>
#define private public
#include <parlay/alloc.h>
#undef private
#include "common.h"
using namespace parlay;
using Pool = parlay::internal::pool_allocator;
using BA = parlay::internal::block_allocator;
struct alignas(256) Big { u64 x[32]; };
extern "C" {
void gh_block(void*); void gh_end();
u64 vc_off(u64 k) {
  switch (k) {
    case 0: return offsetof(Pool, num_buckets); case 1: return offsetof(Pool, num_small); case 2: return offsetof(Pool, max_small); case 3: return offsetof(Pool, max_size);
    case 4: return offsetof(Pool, large_allocated); case 5: return offsetof(Pool, large_used); case 6: return offsetof(Pool, sizes); case 7: return offsetof(Pool, large_buckets);
    case 8: return offsetof(Pool, small_allocators); case 9: return sizeof(Pool); case 10: return sizeof(parlay::internal::hazptr_stack<void*>); case 11: return sizeof(BA);
    case 12: return offsetof(BA, block_size); case 13: return offsetof(BA, block_align); case 14: return offsetof(BA, list_length); case 15: return offsetof(BA, max_blocks); case 16: return offsetof(BA, blocks_allocated);
  }
  return 0;
}
void vc_p_malloc(u64 n, u64 al) { gh_block(p_malloc(n, al)); }
void vc_p_malloc_free(u64 n, u64 al) { void* p = p_malloc(n, al); p_free(p); gh_end(); }
void vc_allocate(Pool* p, u64 n) { gh_block(p->allocate(n)); }
void vc_deallocate(Pool* p, void* b, u64 n) { p->deallocate(b, n); gh_end(); }
u64 vc_accounted(Pool* p, u64 n) { return p->accounted_size(n); }
void vc_alloc_u64(u64 n) { parlay::allocator<u64> a; gh_block(a.allocate(n)); }
void vc_dealloc_u64(u64* p, u64 n) { parlay::allocator<u64> a; a.deallocate(p, n); gh_end(); }
void vc_alloc_big(u64 n) { parlay::allocator<Big> a; gh_block(a.allocate(n)); }
void vc_dealloc_big(Big* p, u64 n) { parlay::allocator<Big> a; a.deallocate(p, n); gh_end(); }
void vc_ba_alloc(BA* b) { gh_block(b->alloc()); }
void vc_ba_free(BA* b, void* p) { b->free(p); gh_end(); }
void vc_ba_get_list(BA* b) { gh_block(b->get_list()); }
void vc_ba_allocate_blocks(BA* b, u64 n) { gh_block(b->allocate_blocks(n)); }
void vc_ba_init_list(BA* b, std::byte* buf) { gh_block(b->initialize_list(buf)); }
}
