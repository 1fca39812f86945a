// Delayed sequences: every view over a slice (random access) or over BV, a view that offers nothing but blocks.
#include <parlay/primitives.h>
#include <parlay/delayed.h>
#include "common.h"
using parlay::make_slice;
namespace d = parlay::internal::delayed;
struct BV {
  u64* a; size_t n;
  struct It {
    using iterator_category = std::forward_iterator_tag; using value_type = u64; using reference = u64&; using pointer = u64*; using difference_type = std::ptrdiff_t;
    u64* p;
    u64& operator*() const { return *p; }
    It& operator++() { ++p; return *this; }
    It operator++(int) { It t = *this; ++p; return t; }
    friend bool operator==(const It& x, const It& y) { return x.p == y.p; }
    friend bool operator!=(const It& x, const It& y) { return x.p != y.p; }
  };
  size_t size() const { return n; }
  size_t get_num_blocks() const { return n == 0 ? 0 : 1 + (n - 1) / d::block_size; }
  It get_begin_block(size_t i) const { size_t k = i * d::block_size; return It{a + (k < n ? k : n)}; }
  It get_end_block(size_t i) const { return get_begin_block(i + 1); }
  It begin() const { return It{a}; }
  It end() const { return It{a + n}; }
};
struct OpF { u64 operator()(u64 a, u64 b) const { return uf_op(a, b); } };
#define OUT(x) { auto r_ = x; gh_out(r_.data(), r_.size()); }
extern "C" {
void vc_to_sequence(u64* a, size_t n) { OUT(d::to_sequence(BV{a, n})); }
u64 vc_reduce(u64* a, size_t n, u64 id) { return d::reduce(BV{a, n}, OpF{}, id); }
void vc_for_each(u64* a, size_t n) { d::for_each(BV{a, n}, [](u64& x) { x = uf_f(x); }); gh_out(a, n); }
void vc_apply(u64* a, size_t n) { d::apply(BV{a, n}, [](u64& x) { x = uf_f(x); }); gh_out(a, n); }
void vc_for_each_ra(u64* a, size_t n) { d::for_each(make_slice(a, a + n), [](u64& x) { x = uf_f(x); }); gh_out(a, n); }
u64 vc_reduce_ra(u64* a, size_t n, u64 id) { return d::reduce(make_slice(a, a + n), OpF{}, id); }
void vc_map(u64* a, size_t n) { OUT(d::to_sequence(d::map(BV{a, n}, Fun{}))); }
void vc_map_lvalue(u64* a, size_t n) { BV v{a, n}; auto m = d::map(v, Fun{}); OUT(d::to_sequence(m)); }
void vc_map_ra(u64* a, size_t n) { OUT(d::to_sequence(d::map(make_slice(a, a + n), Fun{}))); }
void vc_scan(u64* a, size_t n, u64 id) { auto r = d::scan(make_slice(a, a + n), OpF{}, id); gh_val(r.second); OUT(d::to_sequence(r.first)); }
void vc_scan_bv(u64* a, size_t n, u64 id) { auto r = d::scan(BV{a, n}, OpF{}, id); gh_val(r.second); OUT(d::to_sequence(r.first)); }
void vc_scan_inclusive(u64* a, size_t n, u64 id) { OUT(d::to_sequence(d::scan_inclusive(make_slice(a, a + n), OpF{}, id))); }
void vc_scan_inclusive_bv(u64* a, size_t n, u64 id) { OUT(d::to_sequence(d::scan_inclusive(BV{a, n}, OpF{}, id))); }
void vc_scan_map(u64* a, size_t n, u64 id) { auto r = d::scan(make_slice(a, a + n), OpF{}, id); gh_val(r.second); OUT(d::to_sequence(d::map(r.first, Fun{}))); }
void vc_map_map(u64* a, size_t n) { OUT(d::to_sequence(d::map(d::map(BV{a, n}, Fun{}), Fun{}))); }
u64 vc_reduce_map(u64* a, size_t n, u64 id) { return d::reduce(d::map(BV{a, n}, Fun{}), OpF{}, id); }
void vc_zip_bv(u64* a, size_t n, u64* b, size_t m) { OUT(d::to_sequence(d::map(d::zip(BV{a, n}, BV{b, m}), [](auto&& t) { return uf_op(std::get<0>(t), std::get<1>(t)); }))); }
void vc_zip_ra(u64* a, size_t n, u64* b, size_t m) { OUT(d::to_sequence(d::map(d::zip(make_slice(a, a + n), make_slice(b, b + m)), [](auto&& t) { return uf_op(std::get<0>(t), std::get<1>(t)); }))); }
void vc_enumerate(u64* a, size_t n) { OUT(d::to_sequence(d::map(parlay::delayed::enumerate(make_slice(a, a + n)), [](auto&& t) { return uf_op(std::get<0>(t), std::get<1>(t)); }))); }
void vc_tabulate(size_t n, size_t i) { auto r = parlay::delayed_tabulate(n, Fun{}); gh_val(r.size()); gh_val(r[i]); gh_val(*(r.begin() + i)); }
}
