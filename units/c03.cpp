// Sequence operations against the list they implement.
#include <parlay/sequence.h>
#include <parlay/slice.h>
#include "common.h"
#ifdef TRACKED
// every element knows (for the specification) whether it is alive
extern "C" { void gh_construct(u64 live); void gh_use(u64 live); void gh_destroy(u64 live); }
struct T {
  u64 v, live;
  T() noexcept { gh_construct(live); v = 0; live = 1; }
  T(const T& o) noexcept { gh_construct(live); gh_use(o.live); v = o.v; live = 1; }
  T(T&& o) noexcept { gh_construct(live); gh_use(o.live); v = o.v; live = 1; }
  T& operator=(const T& o) noexcept { gh_use(live); gh_use(o.live); v = o.v; return *this; }
  T& operator=(T&& o) noexcept { gh_use(live); gh_use(o.live); v = o.v; return *this; }
  bool operator==(const T& o) const { return v == o.v; }
  ~T() { gh_destroy(live); live = 0; }
};
#else
typedef u64 T;
#endif
typedef parlay::sequence<T> S;
extern "C" {
void gh_it(const T*);
void vc_push_back(S* s, const T* v) { gh_it(s->push_back(*v)); }
void vc_push_back_own(S* s, size_t i) { gh_it(s->push_back((*s)[i])); }
void vc_push_back_move(S* s, T* v) { gh_it(s->push_back(std::move(*v))); }
void vc_emplace_back(S* s, const T* v) { gh_it(s->emplace_back(*v)); }
void vc_pop_back(S* s) { s->pop_back(); }
void vc_append_n(S* s, size_t k, const T* v) { gh_it(s->append(k, *v)); }
void vc_append_n_own(S* s, size_t k, size_t i) { gh_it(s->append(k, (*s)[i])); }
void vc_append_range(S* s, const T* a, size_t k) { gh_it(s->append(a, a + k)); }
void vc_append_rng(S* s, T* a, size_t k) { gh_it(s->append(parlay::make_slice(a, a + k))); }
void vc_append_move(S* s, S* r) { gh_it(s->append(std::move(*r))); }
void vc_append_copy(S* s, const S* r) { gh_it(s->append(*r)); }
void vc_insert(S* s, size_t p, const T* v) { gh_it(s->insert(s->begin() + p, *v)); }
void vc_insert_own(S* s, size_t p, size_t i) { gh_it(s->insert(s->begin() + p, (*s)[i])); }
void vc_emplace(S* s, size_t p, const T* v) { gh_it(s->emplace(s->begin() + p, *v)); }
void vc_insert_n(S* s, size_t p, size_t k, const T* v) { gh_it(s->insert(s->begin() + p, k, *v)); }
void vc_insert_n_own(S* s, size_t p, size_t k, size_t i) { gh_it(s->insert(s->begin() + p, k, (*s)[i])); }
void vc_insert_range(S* s, size_t p, const T* a, size_t k) { gh_it(s->insert(s->begin() + p, a, a + k)); }
void vc_insert_move(S* s, size_t p, S* r) { gh_it(s->insert(s->begin() + p, std::move(*r))); }
void vc_erase(S* s, size_t p) { gh_it(s->erase(s->begin() + p)); }
void vc_erase_range(S* s, size_t p, size_t q) { gh_it(s->erase(s->begin() + p, s->begin() + q)); }
void vc_resize(S* s, size_t k, const T* v) { s->resize(k, *v); }
void vc_resize_own(S* s, size_t k, size_t i) { s->resize(k, (*s)[i]); }
void vc_resize_default(S* s, size_t k) { s->resize(k); }
void vc_reserve(S* s, size_t k) { s->reserve(k); }
void vc_clear(S* s) { s->clear(); }
void vc_swap(S* s, S* r) { s->swap(*r); }
void vc_swap_free(S* s, S* r) { swap(*s, *r); }
void vc_assign_copy(S* s, const S* r) { *s = *r; }
void vc_assign_move(S* s, S* r) { *s = std::move(*r); }
void vc_assign_n(S* s, size_t k, const T* v) { s->assign(k, *v); }
void vc_assign_n_own(S* s, size_t k, size_t i) { s->assign(k, (*s)[i]); }
void vc_assign_range(S* s, const T* a, size_t k) { s->assign(a, a + k); }
void vc_ctor_n(S* s, size_t k) { new (s) S(k); }
void vc_ctor_fill(S* s, size_t k, const T* v) { new (s) S(k, *v); }
void vc_ctor_range(S* s, const T* a, size_t k) { new (s) S(a, a + k); }
void vc_ctor_copy(S* s, const S* r) { new (s) S(*r); }
void vc_ctor_move(S* s, S* r) { new (s) S(std::move(*r)); }
void vc_ctor_default(S* s) { new (s) S(); }
void vc_to_sequence(S* s, T* a, size_t k) { new (s) S(parlay::to_sequence(parlay::make_slice(a, a + k))); }
void vc_dtor(S* s) { s->~S(); }
void vc_pop_tail(S* s, size_t p, S* r) { new (r) S(s->pop_tail(s->begin() + p)); }
void vc_pop_tail_len(S* s, size_t k, S* r) { new (r) S(s->pop_tail(k)); }
void vc_subseq(S* s, size_t p, size_t q, S* r) { new (r) S(static_cast<const S*>(s)->subseq(p, q)); }
void vc_substr(S* s, size_t p, S* r) { new (r) S(static_cast<const S*>(s)->substr(p)); }
void vc_substr2(S* s, size_t p, size_t q, S* r) { new (r) S(static_cast<const S*>(s)->substr(p, q)); }
void vc_at(S* s, size_t i) { gh_it(&s->at(i)); }
void vc_index(S* s, size_t i) { gh_it(&(*s)[i]); }
void vc_front(S* s) { gh_it(&s->front()); }
void vc_back(S* s) { gh_it(&s->back()); }
void vc_begin(S* s) { gh_it(s->begin()); }
void vc_end(S* s) { gh_it(s->end()); }
void vc_cut(S* s, size_t p, size_t q) { auto c = s->cut(p, q); gh_it(c.begin()); gh_val(c.size()); }
void vc_head(S* s, size_t p) { auto c = s->head(p); gh_it(c.begin()); gh_val(c.size()); }
void vc_tail(S* s, size_t p) { auto c = s->tail(p); gh_it(c.begin()); gh_val(c.size()); }
void vc_size(S* s) { gh_val(s->size()); gh_bool(s->empty()); }
#ifndef TRACKED
void vc_equal(const S* s, const S* r) { gh_bool(*s == *r); }
void vc_not_equal(const S* s, const S* r) { gh_bool(*s != *r); }
#endif
}
