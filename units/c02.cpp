// The work-stealing deque, one operation at a time under arbitrary interference of the other threads.
#include <array>
#include <atomic>
#include <cstddef>
#include <parlay/internal/work_stealing_deque.h>
#include "common.h"
using D = parlay::internal::Deque<u64>;
extern "C" {
void gh_pushed(); void gh_owner(u64*); void gh_thief(u64*);
void vc_layout() { gh_val(offsetof(D, bot)); gh_val(offsetof(D, age)); gh_val(offsetof(D, deq)); gh_val(sizeof(D::padded_job)); gh_val(offsetof(D::age_t, tag)); gh_val(offsetof(D::age_t, top)); gh_val(D::q_size); gh_val(sizeof(D)); }
void vc_push(D* d, u64* j) { d->push_bottom(j); gh_pushed(); }
void vc_pop_bottom(D* d) { gh_owner(d->pop_bottom()); }
void vc_pop_top(D* d) { gh_thief(d->pop_top().first); }
void vc_make(D* d) { new (d) D(); }
}
