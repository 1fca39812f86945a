// Merging and binary search.
#include <parlay/primitives.h>
#include "common.h"
using parlay::make_slice;
extern "C" {
size_t vc_binary_search(const u64* b, size_t n, u64 v) { auto s = make_slice(b, b + n); return parlay::internal::binary_search(s, v, Less{}); }
size_t vc_binary_search_pred(const u64* b, size_t n) { auto s = make_slice(b, b + n); return parlay::internal::binary_search(s, Pred{}); }
void vc_seq_merge(const u64* a, size_t n, const u64* b, size_t m, u64* r) {
  parlay::internal::seq_merge<parlay::uninitialized_copy_tag>(make_slice(a, a + n), make_slice(b, b + m), make_slice(r, r + (n + m)), Less{}); }
void vc_seq_merge_move(u64* a, size_t n, u64* b, size_t m, u64* r) {
  parlay::internal::seq_merge<parlay::uninitialized_move_tag>(make_slice(a, a + n), make_slice(b, b + m), make_slice(r, r + (n + m)), Less{}); }
void vc_merge_into(const u64* a, size_t n, const u64* b, size_t m, u64* r, bool cons) {
  parlay::internal::merge_into<parlay::uninitialized_copy_tag>(make_slice(a, a + n), make_slice(b, b + m), make_slice(r, r + (n + m)), Less{}, cons); }
void vc_merge(const u64* a, size_t n, const u64* b, size_t m) { auto r = parlay::merge(make_slice(a, a + n), make_slice(b, b + m), Less{}); gh_out(r.data(), r.size()); }
}
