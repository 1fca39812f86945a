#include "h.h"
#include <fstream>
#include <parlay/io.h>
#include <parlay/primitives.h>
static std::string dir() { const char* s = getenv("H_SCRATCH"); return s ? s : "/tmp"; }
static std::string fn() { static int k = 0; return dir() + "/f" + std::to_string(getpid()) + "_" + std::to_string(k++ % 7); }
static void one(size_t n, int kind, u64 sd) {
  begin("file of %zu bytes, contents %d, seed %llu", n, kind, (unsigned long long)sd);
  Rng g(sd); parlay::chars c(n, (char)0); for (size_t i = 0; i < n; i++) c[i] = kind == 0 ? (char)g.next() : kind == 1 ? (char)0 : kind == 2 ? '\n' : kind == 3 ? (char)i : "\r\n\x1a\xff"[g.below(4)];
  auto f = fn(); parlay::chars_to_file(c, f);
  { std::ifstream in(f, std::ios::binary); std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); CHECK(s.size() == n && std::equal(s.begin(), s.end(), c.begin()), "the file holds %zu bytes that differ from the %zu written", s.size(), n); }
  auto r = parlay::chars_from_file(f); CHECK(r == c, "reading back gave %zu characters that differ", r.size());
  auto z = parlay::chars_from_file(f, true); CHECK(z.size() == n + 1 && z[n] == 0 && std::equal(c.begin(), c.end(), z.begin()), "null-terminated reading");
  for (int k = 0; k < 6; k++) { size_t a = g.below(n + 3), b = g.below(n + 3); if (b < a) std::swap(a, b); if (b == 0) continue; size_t a2 = std::min(a, n), b2 = std::min(b, n); auto q = parlay::chars_from_file(f, k & 1, a, b); CHECK(q.size() == b2 - a2 + (k & 1) && std::equal(c.begin() + a2, c.begin() + b2, q.begin()), "reading [%zu, %zu)", a, b); if (k & 1) CHECK(q[b2 - a2] == 0, "terminator"); auto q2 = parlay::chars_from_file(f, false, a); CHECK(q2.size() == n - a2 && std::equal(c.begin() + a2, c.end(), q2.begin()), "reading from %zu", a); }
  { parlay::file_map m(f); CHECK(m.size() == n && m.empty() == (n == 0), "mapping: size %zu", m.size()); CHECK((size_t)(m.end() - m.begin()) == n, "mapping: range"); CHECK(std::equal(m.begin(), m.end(), c.begin()), "mapping: contents"); for (size_t i = 0; i < n; i += 1 + n / 50) CHECK(m[i] == c[i], "mapping: element %zu", i);
    parlay::file_map o(std::move(m)); CHECK(o.size() == n && std::equal(o.begin(), o.end(), c.begin()), "moved mapping"); CHECK(m.empty() && m.size() == 0, "moved-from mapping"); parlay::file_map p(f); p = std::move(o); CHECK(p.size() == n && std::equal(p.begin(), p.end(), c.begin()), "move-assigned mapping"); p.swap(o); CHECK(o.size() == n && std::equal(o.begin(), o.end(), c.begin()), "swapped mapping"); o.close(); CHECK(o.empty() && o.size() == 0, "closed mapping"); o.close(); }
  // overwriting by something shorter
  parlay::chars d = parlay::to_chars(std::string("xyz").substr(0, g.below(4))); parlay::chars_to_file(d, f); CHECK(parlay::chars_from_file(f) == d, "overwriting a file"); unlink(f.c_str());
}
TEST(sizes_) { for (size_t n : {0, 1, 2, 3, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 100000, 1048576, 1048577}) for (int k = 0; k < 5; k++) if (n < 200000 || k == 0) one(n, k, seed + n); }
TEST(random_fill) { Rng g(seed + 1); while (more(1.0)) one(g.below(g.coin() ? 100 : g.coin() ? 10000 : 300000), g.below(5), g.next()); }
MAIN
