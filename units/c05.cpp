#include <parlay/primitives.h>
#include "common.h"
using parlay::make_slice;
extern "C" {
u64 vc_reduce(u64* a, size_t n, u64 id) { return parlay::reduce(make_slice(a, a + n), Op{id}); }
u64 vc_reduce_seq(parlay::sequence<u64>* s, u64 id) { Op m{id}; return parlay::internal::reduce(*s, m); }
void vc_scan(u64* a, size_t n, u64 id) {
  auto r = parlay::scan(make_slice(a, a + n), Op{id});
  gh_val(r.second); gh_out(r.first.data(), r.first.size()); }
void vc_scan_inclusive(u64* a, size_t n, u64 id) {
  auto r = parlay::scan_inclusive(make_slice(a, a + n), Op{id});
  gh_out(r.data(), r.size()); }
void vc_scan_inplace(u64* a, size_t n, u64 id) {
  u64 t = parlay::scan_inplace(make_slice(a, a + n), Op{id});
  gh_val(t); gh_out(a, n); }
void vc_scan_inclusive_inplace(u64* a, size_t n, u64 id) {
  parlay::scan_inclusive_inplace(make_slice(a, a + n), Op{id});
  gh_out(a, n); }
}
