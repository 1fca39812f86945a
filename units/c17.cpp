// The hash table.  The members of the real class are made visible to the entry points; this has no effect on its code.
#include <parlay/primitives.h>
#include <parlay/random.h>
#define private public
#include <parlay/hash_table.h>
#undef private
#include "common.h"
extern "C" { u64 gh_hash(u64); u64 gh_replace(u64, u64); u64 gh_cas(u64*, u64, u64); u64 gh_update(u64, u64); void gh_found(u64); void gh_inserted(bool); void gh_index(u64); void gh_deleted(bool); }
struct H {
  using eType = u64; using kType = u64;
  u64 e;
  u64 empty() { return e; }
  u64 getKey(u64 v) { return uf_f(v); }
  size_t hash(u64 k) { return gh_hash(k); }
  int cmp(u64 a, u64 b) { return uf_less(b, a) ? 1 : (uf_less(a, b) ? -1 : 0); }
  bool replaceQ(u64 a, u64 b) { return gh_replace(a, b) != 0; }
  u64 update(u64 c, u64 v) { return gh_update(c, v); }
  bool cas(u64* p, u64 o, u64 n) { return gh_cas(p, o, n) != 0; }
};
using T = parlay::hashtable<H>;
extern "C" {
void vc_layout(T* t) { gh_val((char*)&t->m - (char*)t); gh_val((char*)&t->empty - (char*)t); gh_val((char*)&t->hashStruct - (char*)t); gh_val((char*)&t->TA - (char*)t); gh_val(sizeof(T)); }
void vc_find(T* t, u64 k) { gh_found(t->find(k)); }
void vc_findIndex(T* t, u64 k) { gh_index(t->findIndex(k)); }
void vc_insert(T* t, u64 v) { gh_inserted(t->insert(v)); }
void vc_update(T* t, u64 v) { gh_inserted(t->update(v)); }
void vc_delete(T* t, u64 k) { gh_deleted(t->deleteVal(k)); }
u64 vc_hashToRange(T* t, u64 h) { return t->hashToRange(h); }
u64 vc_incrementIndex(T* t, u64 h) { return t->incrementIndex(h); }
u64 vc_decrementIndex(T* t, u64 h) { return t->decrementIndex(h); }
u64 vc_count(T* t) { return t->count(); }
void vc_entries(T* t) { auto r = t->entries(); gh_out(r.data(), r.size()); }
}
