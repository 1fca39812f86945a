// Thread-specific storage: identifier -> slot mapping, iteration, initialisation.
#include <parlay/thread_specific.h>
#include "common.h"
using namespace parlay;
using TS = ThreadSpecific<u64>;
using CD = parlay::internal::ThreadListChunkData;
extern "C" {
void gh_pos(size_t chunk, size_t pos); void gh_slot(const void*); void gh_it(size_t chunk, size_t pos); void gh_diff(long); void gh_cmp(bool, int); void gh_end(); void gh_chunksize(size_t);
u64 vc_off() { return offsetof(TS, chunks); }
u64 vc_sizeof() { static_assert(sizeof(parlay::internal::Uninitialized<u64>) == 64); return sizeof(TS); }
void vc_init_size() { gh_val(CD::thread_list_chunk_size); }
void vc_position(u64 id) { CD d(id); gh_pos(d.chunk_id, d.chunk_position); gh_val(d.thread_id); }
void vc_chunk_size(u64 c) { gh_chunksize(TS::get_chunk_size(c)); }
void vc_by_index(TS* t, u64 c, u64 p) { gh_slot(&t->get_by_index(c, p)); }
void vc_by_index_const(const TS* t, u64 c, u64 p) { gh_slot(&t->get_by_index(c, p)); }
void vc_get(TS* t) { gh_slot(&t->get()); }
void vc_get_const(const TS* t) { gh_slot(&t->get()); }
void vc_deref(TS* t) { gh_slot(&**t); }
void vc_arrow(TS* t) { gh_slot(t->operator->()); }
void vc_deref_const(const TS* t) { gh_slot(&**t); }
void vc_arrow_const(const TS* t) { gh_slot(t->operator->()); }
void vc_it_inc(TS* t, u64 c, u64 p) { TS::iterator it(c, p, t); auto& r = ++it; gh_it(it.chunk_id, it.position); gh_bool(&r == &it); }
void vc_it_postinc(TS* t, u64 c, u64 p) { TS::iterator it(c, p, t); auto old = it++; gh_it(it.chunk_id, it.position); gh_bool(old.chunk_id == c && old.position == p); }
void vc_it_dec(TS* t, u64 c, u64 p) { TS::iterator it(c, p, t); auto& r = --it; gh_it(it.chunk_id, it.position); gh_bool(&r == &it); }
void vc_it_postdec(TS* t, u64 c, u64 p) { TS::iterator it(c, p, t); auto old = it--; gh_it(it.chunk_id, it.position); gh_bool(old.chunk_id == c && old.position == p); }
void vc_it_add(TS* t, u64 c, u64 p, long d) { TS::iterator it(c, p, t); auto r = it + d; gh_it(r.chunk_id, r.position); gh_bool(it.chunk_id == c && it.position == p); }
void vc_it_sub(TS* t, u64 c, u64 p, long d) { TS::iterator it(c, p, t); auto r = it - d; gh_it(r.chunk_id, r.position); gh_bool(it.chunk_id == c && it.position == p); }
void vc_it_index(TS* t, u64 c, u64 p, u64 d) { TS::iterator it(c, p, t); gh_slot(&it[d]); }
void vc_it_star(TS* t, u64 c, u64 p) { TS::iterator it(c, p, t); gh_slot(&*it); }
void vc_it_diff(TS* t, u64 c, u64 p, u64 c2, u64 p2) { TS::iterator a(c, p, t), b(c2, p2, t); gh_diff(a - b); }
void vc_it_cmp(TS* t, u64 c, u64 p, u64 c2, u64 p2) { TS::iterator a(c, p, t), b(c2, p2, t); gh_cmp(a == b, 0); gh_cmp(a != b, 1); gh_cmp(a < b, 2); gh_cmp(a <= b, 3); gh_cmp(a > b, 4); gh_cmp(a >= b, 5); }
void vc_range(TS* t) { auto b = t->begin(); auto e = t->end(); gh_it(b.chunk_id, b.position); gh_pos(e.chunk_id, e.position); }
void vc_range_const(const TS* t) { auto b = t->begin(); auto e = t->end(); gh_it(b.chunk_id, b.position); gh_pos(e.chunk_id, e.position); }
void vc_for_each(TS* t) { t->for_each([](u64& x) { gh_slot(&x); }); gh_end(); }
void vc_ensure(TS* t, u64 c) { t->ensure_chunk_exists(c); gh_end(); }
void vc_initialize(TS* t) { t->initialize(); gh_end(); }
}
