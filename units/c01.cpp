// Parallel loops and forks.
#include <parlay/primitives.h>
#include "common.h"
struct Cnt { u64* c; void operator()(size_t i) const { c[i]++; } };
extern "C" { void gh_left(); void gh_right(); void gh_mid(); void gh_end(); void gh_blk(size_t, size_t, size_t); }
struct L { void operator()() const { gh_left(); } };
struct R { void operator()() const { gh_right(); } };
struct M { void operator()() const { gh_mid(); } };
using FJ = parlay::fork_join_scheduler;
using Sched = parlay::internal::scheduler_type;
extern "C" {
void vc_off(Sched& s) { gh_val((char*)&s.num_threads - (char*)&s); }
void vc_parfor_(Sched& s, u64* c, size_t b, size_t e, size_t g, bool cons) { Cnt f{c}; FJ::parfor_(s, b, e, f, g, cons); }
size_t vc_granularity(u64* c, size_t b, size_t e) { Cnt f{c}; return FJ::get_granularity(b, e, f); }
void vc_parfor(Sched& s, u64* c, size_t b, size_t e, size_t g, bool cons) { Cnt f{c}; FJ::parfor(s, b, e, f, g, cons); }
void vc_parallel_for(u64* c, size_t b, size_t e, long g, bool cons) { parlay::parallel_for(b, e, Cnt{c}, g, cons); }
void vc_parallel_for_default(u64* c, size_t b, size_t e) { Cnt f{c}; parlay::parallel_for(b, e, f); }
void vc_pardo(Sched& s, bool cons) { FJ::pardo(s, L{}, R{}, cons); gh_end(); }
void vc_par_do(bool cons) { parlay::par_do(L{}, R{}, cons); gh_end(); }
void vc_parallel_do(bool cons) { parlay::parallel_do(L{}, R{}, cons); gh_end(); }
void vc_par_do_if(bool p, bool cons) { parlay::par_do_if(p, L{}, R{}, cons); gh_end(); }
void vc_par_do3() { parlay::par_do3(L{}, M{}, R{}); gh_end(); }
void vc_par_do3_if(bool p) { parlay::par_do3_if(p, L{}, M{}, R{}); gh_end(); }
void vc_job(bool x) { R r; auto j = parlay::make_job(r); j(); gh_bool(j.finished()); }
void vc_blocked_for(u64* lo, u64* hi, u64* cnt, size_t b, size_t e, size_t bs) {
  parlay::blocked_for(b, e, bs, [&](size_t i, size_t s, size_t t) { lo[i] = s; hi[i] = t; cnt[i]++; }); }
}
