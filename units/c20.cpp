#include <parlay/primitives.h>
#include "common.h"
using parlay::make_slice;
// what is applied to a piece sees where it begins and how long it is
extern "C" { u64 gh_piece(const u64*, size_t); void gh_each(const u64*, size_t); }
struct Piece { template <class S> u64 operator()(const S& s) const { return gh_piece(s.begin(), s.size()); } };
struct Each { template <class S> void operator()(const S& s) const { gh_each(s.begin(), s.size()); } };
extern "C" {
void vc_map_split_at(u64* a, bool* f, size_t n) { auto r = parlay::map_split_at(make_slice(a, a + n), make_slice(f, f + n), Piece{}); gh_out(r.data(), r.size()); }
void vc_map_tokens_small(u64* a, size_t n) { auto r = parlay::internal::map_tokens_small(make_slice(a, a + n), Piece{}, Pred{}); gh_out(r.data(), r.size()); }
void vc_map_tokens(u64* a, size_t n) { auto r = parlay::map_tokens(make_slice(a, a + n), Piece{}, Pred{}); gh_out(r.data(), r.size()); }
}
