// Harness declarations: the real templates are instantiated with opaque elements and
// uninterpreted functions.  uf_* are uninterpreted (pure) functions of the verifier,
// gh_* are ghost calls at which the specification states obligations.
#pragma once
#include <cstddef>
#include <utility>
typedef unsigned long u64;
extern "C" {
  u64  uf_op(u64, u64);
  bool uf_less(u64, u64);
  u64  uf_f(u64);
  bool uf_p(u64);
  void gh_out(const u64*, size_t);
  void gh_val(u64);
  void gh_bool(bool);
  void gh_pair(const void*, size_t);
}
struct Op { u64 identity; u64 operator()(u64 a, u64 b) const { return uf_op(a, b); } };
struct Less { bool operator()(u64 a, u64 b) const { return uf_less(a, b); } };
struct Pred { bool operator()(u64 a) const { return uf_p(a); } };
struct Fun { u64 operator()(u64 a) const { return uf_f(a); } };
