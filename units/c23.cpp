// Atomic accumulate helpers under interference of other threads.
#include <parlay/utilities.h>
#include "common.h"
extern "C" { bool uf_less64(u64, u64); bool uf_less32(unsigned, unsigned); void gh_done(bool); void gh_added(); }
struct L64 { bool operator()(u64 a, u64 b) const { return uf_less64(a, b); } };
struct L32 { bool operator()(unsigned a, unsigned b) const { return uf_less32(a, b); } };
extern "C" {
void vc_min64(std::atomic<u64>* a, u64 b) { gh_done(parlay::write_min(a, b, L64{})); }
void vc_max64(std::atomic<u64>* a, u64 b) { gh_done(parlay::write_max(a, b, L64{})); }
void vc_min32(std::atomic<unsigned>* a, unsigned b) { gh_done(parlay::write_min(a, b, L32{})); }
void vc_max32(std::atomic<unsigned>* a, unsigned b) { gh_done(parlay::write_max(a, b, L32{})); }
void vc_add64(std::atomic<u64>* a, u64 b) { parlay::write_add(a, b); gh_added(); }
void vc_addi64(std::atomic<long>* a, long b) { parlay::write_add(a, b); gh_added(); }
void vc_add32(std::atomic<unsigned>* a, unsigned b) { parlay::write_add(a, b); gh_added(); }
void vc_addmix(std::atomic<u64>* a, unsigned b) { parlay::write_add(a, b); gh_added(); }
void vc_adddouble(std::atomic<double>* a, double b) { parlay::write_add(a, b); gh_added(); }
void vc_mindouble(std::atomic<double>* a, double b) { gh_done(parlay::write_min(a, b, std::less<double>())); }
}
