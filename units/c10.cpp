// Integer and counting sorts.
#include <parlay/primitives.h>
#include "common.h"
using parlay::make_slice;
extern "C" u64* gh_base();
// a random access "iterator" over the output of the specification: 8 bytes, position + known base
struct It {
  using iterator_category = std::random_access_iterator_tag; using value_type = u64; using difference_type = std::ptrdiff_t; using pointer = u64*; using reference = u64&;
  size_t i;
  u64& operator*() const { return gh_base()[i]; }
  u64& operator[](size_t k) const { return gh_base()[i + k]; }
  It operator++(int) { It r = *this; i++; return r; }
  It& operator++() { i++; return *this; }
  It& operator--() { i--; return *this; }
  It& operator+=(size_t k) { i += k; return *this; }
  friend It operator+(size_t k, It a) { return {a.i + k}; }
  friend It operator+(It a, size_t k) { return {a.i + k}; }
  friend std::ptrdiff_t operator-(It a, It b) { return a.i - b.i; }
  friend bool operator==(It a, It b) { return a.i == b.i; }
  friend bool operator!=(It a, It b) { return a.i != b.i; }
  friend bool operator<(It a, It b) { return a.i < b.i; }
};
extern "C" {
void vc_seq_count_(u64* a, size_t* keys, size_t n, size_t* counts, size_t nb) {
  parlay::internal::seq_count_(make_slice(a, a + n), make_slice(keys, keys + n), counts, nb); }
void vc_seq_write_down_(u64* a, size_t* keys, size_t n, u64* out, size_t* offsets, size_t nb) {
  parlay::internal::seq_write_down_<parlay::uninitialized_copy_tag>(make_slice(a, a + n), out, make_slice(keys, keys + n), offsets, nb); }
void vc_seq_count_sort_(u64* a, size_t* keys, size_t n, u64* out, size_t* counts, size_t nb) {
  parlay::internal::seq_count_sort_<parlay::uninitialized_copy_tag>(make_slice(a, a + n), make_slice(out, out + n), make_slice(keys, keys + n), counts, nb); }
void vc_seq_count_sort(u64* a, size_t* keys, size_t n, u64* out, size_t nb) {
  auto r = parlay::internal::seq_count_sort<parlay::uninitialized_copy_tag>(make_slice(a, a + n), make_slice(out, out + n), make_slice(keys, keys + n), nb);
  gh_out(r.data(), r.size()); }
void vc_seq_write_(u64* a, size_t* keys, size_t n, It* offsets, size_t nb) {
  parlay::internal::seq_write_<parlay::uninitialized_copy_tag>(make_slice(a, a + n), make_slice(keys, keys + n), offsets, nb); }
}
