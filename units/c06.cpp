#include <parlay/primitives.h>
#include "common.h"
using parlay::make_slice;
extern "C" { bool uf_eq(u64, u64); }
struct Eq { bool operator()(u64 a, u64 b) const { return uf_eq(a, b); } };
extern "C" {
void vc_pack(u64* a, bool* f, size_t n) { auto r = parlay::pack(make_slice(a, a + n), make_slice(f, f + n)); gh_out(r.data(), r.size()); }
void vc_pack_into(u64* a, bool* f, size_t n, u64* o, size_t m) { size_t c = parlay::pack_into_uninitialized(make_slice(a, a + n), make_slice(f, f + n), make_slice(o, o + m)); gh_out(o, c); }
void vc_pack_index(bool* f, size_t n) { auto r = parlay::pack_index(make_slice(f, f + n)); gh_out(r.data(), r.size()); }
void vc_filter(u64* a, size_t n) { auto r = parlay::filter(make_slice(a, a + n), Pred{}); gh_out(r.data(), r.size()); }
void vc_filter_into(u64* a, size_t n, u64* o, size_t m) { size_t c = parlay::filter_into_uninitialized(make_slice(a, a + n), make_slice(o, o + m), Pred{}); gh_out(o, c); }
void vc_remove_if(u64* a, size_t n) { auto r = parlay::remove_if(make_slice(a, a + n), Pred{}); gh_out(r.data(), r.size()); }
void vc_remove(u64* a, size_t n, u64 v) { auto r = parlay::remove(make_slice(a, a + n), v); gh_out(r.data(), r.size()); }
void vc_unique(u64* a, size_t n) { auto r = parlay::unique(make_slice(a, a + n), Eq{}); gh_out(r.data(), r.size()); }
}
