// Collect-reduce and the functions built on it.
#include <parlay/primitives.h>
#include "common.h"
using namespace parlay;
extern "C" { u64 gh_key(u64); bool gh_equal(u64, u64); u64 gh_hash(u64); void gh_bucket(u64); void gh_rec(const void*, size_t); }
struct CR {      // a helper for collect_reduce as documented there
  using in_type = u64; using key_type = u64;
  u64 id;
  u64 init() const { return id; }
  static u64 get_key(u64 const& a) { return gh_key(a); }
  static u64 get_val(u64 const& a) { return uf_f(a); }
  void update(u64& d, u64 v) const { d = uf_op(d, v); }
};
struct Mon { u64 identity; u64 operator()(u64 a, u64 b) const { return uf_op(a, b); } };
using KV = std::pair<u64, u64>;
struct HE { using in_type = u64; using key_type = u64; u64 hash(u64 k) const { return gh_hash(k); } bool equal(u64 a, u64 b) const { return gh_equal(a, b); } u64 get_key(u64 v) const { return uf_f(v); } };
using GB = parlay::internal::get_bucket<HE>;
extern "C" {
void vc_seq(u64* a, size_t n, size_t nb, u64 id) { auto r = parlay::internal::seq_collect_reduce(make_slice(a, a + n), CR{id}, nb); gh_out(r.data(), r.size()); }
void vc_few(u64* a, size_t n, size_t nb, u64 id) { auto r = parlay::internal::collect_reduce_few(make_slice(a, a + n), CR{id}, nb); gh_out(r.data(), r.size()); }
void vc_reduce_by_index(KV* a, size_t n, size_t nb, u64 id) { auto r = parlay::reduce_by_index(make_slice(a, a + n), nb, Mon{id}); gh_out(r.data(), r.size()); }
void vc_histogram(u64* a, size_t n, size_t nb) { auto r = parlay::histogram_by_index(make_slice(a, a + n), nb); gh_out(r.data(), r.size()); }
void vc_remove(u64* a, size_t n, size_t nb) { auto r = parlay::remove_duplicate_integers(make_slice(a, a + n), nb); gh_out(r.data(), r.size()); }
void vc_gb_layout(GB* g) { gh_val((char*)&g->hash_table - (char*)g); gh_val((char*)&g->table_mask - (char*)g); gh_val((char*)&g->bucket_mask - (char*)g); gh_val((char*)&g->heavy_hitters - (char*)g); gh_val(sizeof(GB)); gh_val(sizeof(GB::KI)); gh_val(offsetof(GB::KI, second)); }
void vc_bucket(GB* g, u64* v) { gh_bucket((*g)(*v)); }
}
