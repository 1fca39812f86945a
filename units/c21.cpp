#include <parlay/primitives.h>
#include "common.h"
using parlay::make_slice;
// counts its own calls per argument: exactly-once evaluation becomes a postcondition on cnt
struct CFun { u64* cnt; u64 operator()(size_t i) const { cnt[i] += 1; return uf_f(i); } };
struct MFun { u64* cnt; u64* a; u64 operator()(u64& x) const { cnt[&x - a] += 1; return uf_f(x); } };
extern "C" {
void vc_tabulate(size_t n, u64* cnt) { auto r = parlay::tabulate(n, CFun{cnt}); gh_out(r.data(), r.size()); }
void vc_tabulate_gran(size_t n, u64* cnt, size_t g) { auto r = parlay::internal::tabulate<u64>(n, CFun{cnt}, g); gh_out(r.data(), r.size()); }
void vc_map(u64* a, size_t n, u64* cnt) { auto r = parlay::map(make_slice(a, a + n), MFun{cnt, a}); gh_out(r.data(), r.size()); }
void vc_copy(u64* a, size_t n, u64* b, size_t m) { parlay::copy(make_slice(a, a + n), make_slice(b, b + m)); gh_out(b, m); }
void vc_reverse(u64* a, size_t n) { auto r = parlay::reverse(make_slice(a, a + n)); gh_out(r.data(), r.size()); }
void vc_reverse_inplace(u64* a, size_t n) { parlay::reverse_inplace(make_slice(a, a + n)); gh_out(a, n); }
void vc_rotate(u64* a, size_t n, size_t t) { auto r = parlay::rotate(make_slice(a, a + n), t); gh_out(r.data(), r.size()); }
void vc_append(u64* a, size_t n, u64* b, size_t m) { auto r = parlay::append(make_slice(a, a + n), make_slice(b, b + m)); gh_out(r.data(), r.size()); }
void vc_to_sequence(u64* a, size_t n) { auto r = parlay::to_sequence(make_slice(a, a + n)); gh_out(r.data(), r.size()); }
void vc_to_sequence_iota(size_t n) { auto r = parlay::to_sequence(parlay::iota<u64>(n)); gh_out(r.data(), r.size()); }
void vc_iota(size_t n, size_t i) { auto r = parlay::iota<u64>(n); gh_val(r.size()); gh_val(r[i]); }
void vc_delayed_tabulate(size_t n) { auto r = parlay::to_sequence(parlay::delayed_tabulate(n, Fun{})); gh_out(r.data(), r.size()); }
void vc_delayed_map(u64* a, size_t n) { auto r = parlay::to_sequence(parlay::delayed_map(make_slice(a, a + n), Fun{})); gh_out(r.data(), r.size()); }
void vc_seq_fill(size_t n, u64 v) { parlay::sequence<u64> r(n, v); gh_out(r.data(), r.size()); }
void vc_seq_zero(size_t n) { parlay::sequence<u64> r(n); gh_out(r.data(), r.size()); }
void vc_seq_from_function(size_t n, u64* cnt) { auto r = parlay::sequence<u64>::from_function(n, CFun{cnt}); gh_out(r.data(), r.size()); }
void vc_for_each(u64* a, size_t n) { parlay::for_each(make_slice(a, a + n), [](u64& x) { x = uf_f(x); }); gh_out(a, n); }
}
