#include <parlay/primitives.h>
#include "common.h"
using parlay::make_slice;
extern "C" { bool uf_q(u64); bool uf_p2(u64, u64); }
struct PredIdx { bool operator()(size_t i) const { return uf_q(i); } };
struct P2 { bool operator()(u64 a, u64 b) const { return uf_p2(a, b); } };
#define A make_slice(a, a + n)
#define B make_slice(b, b + m)
extern "C" {
void vc_find_if_index(size_t n) { gh_val(parlay::internal::find_if_index(n, PredIdx{})); }
void vc_find_if_index_gran(size_t n, size_t g) { gh_val(parlay::internal::find_if_index(n, PredIdx{}, g)); }
void vc_find_if(u64* a, size_t n) { gh_val(parlay::find_if(A, Pred{}) - a); }
void vc_find_if_not(u64* a, size_t n) { gh_val(parlay::find_if_not(A, Pred{}) - a); }
void vc_find(u64* a, size_t n, u64 v) { gh_val(parlay::find(A, v) - a); }
void vc_count_if(u64* a, size_t n) { gh_val(parlay::count_if(A, Pred{})); }
void vc_count(u64* a, size_t n, u64 v) { gh_val(parlay::count(A, v)); }
void vc_all_of(u64* a, size_t n) { gh_bool(parlay::all_of(A, Pred{})); }
void vc_any_of(u64* a, size_t n) { gh_bool(parlay::any_of(A, Pred{})); }
void vc_none_of(u64* a, size_t n) { gh_bool(parlay::none_of(A, Pred{})); }
void vc_find_first_of(u64* a, size_t n, u64* b, size_t m) { gh_val(parlay::find_first_of(A, B, P2{}) - a); }
void vc_adjacent_find(u64* a, size_t n) { gh_val(parlay::adjacent_find(A, P2{}) - a); }
void vc_mismatch(u64* a, size_t n, u64* b, size_t m) { auto r = parlay::mismatch(A, B, P2{}); gh_val(r.first - a); gh_val(r.second - b); }
void vc_search(u64* a, size_t n, u64* b, size_t m) { gh_val(parlay::search(A, B, P2{}) - a); }
void vc_find_end(u64* a, size_t n, u64* b, size_t m) { gh_val(parlay::find_end(A, B, P2{}) - a); }
void vc_equal(u64* a, size_t n, u64* b, size_t m) { gh_bool(parlay::equal(A, B, P2{})); }
void vc_lexicographical_compare(u64* a, size_t n, u64* b, size_t m) { gh_bool(parlay::lexicographical_compare(A, B, Less{})); }
void vc_is_sorted_until(u64* a, size_t n) { gh_val(parlay::is_sorted_until(A, Less{}) - a); }
void vc_is_partitioned(u64* a, size_t n) { gh_bool(parlay::is_partitioned(A, Pred{})); }
}
