// Order statistics.
#include <parlay/primitives.h>
#include "common.h"
using parlay::make_slice;
extern "C" {
void vc_min_element(const u64* a, size_t n) { auto s = make_slice(a, a + n); gh_val((u64)(parlay::min_element(s, Less{}) - a)); }
void vc_max_element(const u64* a, size_t n) { auto s = make_slice(a, a + n); gh_val((u64)(parlay::max_element(s, Less{}) - a)); }
void gh_two(u64, u64);
void vc_minmax_element(const u64* a, size_t n) { auto s = make_slice(a, a + n); auto r = parlay::minmax_element(s, Less{}); gh_two((u64)(r.first - a), (u64)(r.second - a)); }
void vc_is_sorted(const u64* a, size_t n) { gh_bool(parlay::is_sorted(make_slice(a, a + n), Less{})); }
void vc_rank(const u64* a, size_t n) { auto r = parlay::rank(make_slice(a, a + n), Less{}); gh_out(r.data(), r.size()); }
}
