// Comparison sorts.
#include <parlay/primitives.h>
#include "common.h"
using parlay::make_slice;
extern "C" {
void vc_insertion_sort(u64* a, size_t n) { parlay::internal::insertion_sort(a, n, Less{}); }
void vc_merge_sort_(u64* a, u64* b, size_t n, bool inplace) { parlay::internal::merge_sort_(make_slice(a, a + n), make_slice(b, b + n), Less{}, inplace); }
void vc_merge_sort_inplace(u64* a, size_t n) { parlay::internal::merge_sort_inplace(make_slice(a, a + n), Less{}); }
void vc_merge_sort(u64* a, size_t n) { auto r = parlay::internal::merge_sort(make_slice(a, a + n), Less{}); gh_out(r.data(), r.size()); }
void vc_stable_sort_inplace(u64* a, size_t n) { parlay::stable_sort_inplace(make_slice(a, a + n), Less{}); }
void vc_sort5(u64* a, size_t n) { parlay::internal::sort5(a, n, Less{}); }
void vc_split3(u64* a, size_t n) {
  auto r = parlay::internal::split3(a, n, Less{});
  gh_val(std::get<0>(r) - a); gh_val(std::get<1>(r) - a); gh_bool(std::get<2>(r)); }
void vc_quicksort_serial(u64* a, size_t n) { parlay::internal::quicksort_serial(a, n, Less{}); }
void vc_quicksort(u64* a, size_t n) { parlay::internal::quicksort(a, n, Less{}); }
void vc_quicksort_slice(u64* a, size_t n) { parlay::internal::quicksort(make_slice(a, a + n), Less{}); }
void vc_tuple_layout() {
  std::tuple<u64*, u64*, bool> t;
  gh_val((char*)&std::get<0>(t) - (char*)&t); gh_val((char*)&std::get<1>(t) - (char*)&t); gh_val((char*)&std::get<2>(t) - (char*)&t); }
}
