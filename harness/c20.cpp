#include "h.h"
#include <parlay/primitives.h>
using parlay::sequence;
static bool sp(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static void one(const std::string& s, const char* kind) {
  begin("%s length=%zu text=%.60s seed=%llu", kind, s.size(), show(std::vector<int>(s.begin(), s.end()), 20).c_str(), (unsigned long long)seed);
  parlay::chars c(s.begin(), s.end()); std::vector<std::string> e; { std::string w; for (unsigned char ch : s) { if (sp(ch)) { if (w.size()) e.push_back(w); w.clear(); } else w += ch; } if (w.size()) e.push_back(w); }
  auto chk = [&](auto& r, const char* w) { CHECK(r.size() == e.size(), "%s: %zu tokens, expected %zu", w, (size_t)r.size(), e.size()); for (size_t i = 0; i < e.size(); i++) CHECK(std::string(r[i].begin(), r[i].end()) == e[i], "%s: token %zu", w, i); };
  { auto r = parlay::tokens(c); chk(r, "tokens"); } { auto r = parlay::map_tokens(c, [](auto x) { return std::string(x.begin(), x.end()); }); chk(r, "map_tokens"); } { auto r = parlay::internal::map_tokens_small(c, [](auto x) { return std::string(x.begin(), x.end()); }); chk(r, "map_tokens_small"); }
  { std::atomic<size_t> k{0}, tot{0}; parlay::map_tokens(c, [&](auto x) { k++; tot += x.size(); }); size_t t = 0; for (auto& x : e) t += x.size(); CHECK(k == e.size() && tot == t, "map_tokens without a result: %zu calls for %zu tokens", k.load(), e.size()); }
  { auto r = parlay::tokens(c, [](char x) { return x == 'a'; }); std::vector<std::string> e2; std::string w; for (char ch : s) { if (ch == 'a') { if (w.size()) e2.push_back(w); w.clear(); } else w += ch; } if (w.size()) e2.push_back(w); CHECK(r.size() == e2.size(), "tokens with another separator"); for (size_t i = 0; i < e2.size(); i++) CHECK(std::string(r[i].begin(), r[i].end()) == e2[i], "tokens with another separator: %zu", i); }
}
static void split(const std::vector<char>& fl, const char* kind) {
  size_t n = fl.size(); begin("split %s n=%zu flags=%s", kind, n, show(fl, 30).c_str());
  auto s = parlay::tabulate(n, [](size_t i) { return (int)i; }); auto f = parlay::tabulate(n, [&](size_t i) { return (bool)fl[i]; }); std::vector<std::vector<int>> e(1); for (size_t i = 0; i < n; i++) { e.back().push_back(i); if (fl[i]) e.emplace_back(); }
  auto r = parlay::split_at(s, f); CHECK(r.size() == e.size(), "split_at: %zu pieces, expected %zu", (size_t)r.size(), e.size()); for (size_t i = 0; i < e.size(); i++) CHECK(same(r[i], e[i]), "split_at: piece %zu", i);
  auto m = parlay::map_split_at(s, f, [](auto x) { long t = 0; for (int v : x) t += v; return t; }); for (size_t i = 0; i < e.size(); i++) { long t = 0; for (int v : e[i]) t += v; CHECK(m[i] == t, "map_split_at: piece %zu", i); }
  parlay::chars c = parlay::chars::from_function(n, [](size_t i) { return (char)('a' + i % 26); }); auto q = parlay::split_at(c, f); CHECK(q.size() == e.size(), "split_at of characters"); for (size_t i = 0; i < e.size(); i++) { CHECK(q[i].size() == e[i].size(), "piece length"); for (size_t j = 0; j < e[i].size(); j++) CHECK(q[i][j] == (char)('a' + e[i][j] % 26), "piece content"); }
}
TEST(exhaustive) { for (size_t n = 0; n <= 7; n++) { size_t t = 1; for (size_t i = 0; i < n; i++) t *= 3; for (size_t m = 0; m < t; m++) { std::string s; size_t x = m; for (size_t i = 0; i < n; i++) { s += "a \n"[x % 3]; if (x % 3 == 0 && i % 2) s.back() = 'b'; x /= 3; } one(s, "exhaustive"); } } for (size_t n = 0; n <= 11; n++) for (size_t m = 0; m < (1u << n); m++) { std::vector<char> f(n); for (size_t i = 0; i < n; i++) f[i] = m >> i & 1; split(f, "exhaustive"); } }
TEST(shapes) { Rng g(seed); for (size_t n : sizes()) for (int k = 0; k < 5; k++) { std::string s(n, 'x'); for (auto& c : s) c = k == 0 ? ' ' : k == 1 ? 'x' : k == 2 ? (g.coin() ? 'y' : '\t') : k == 3 ? (g.coin(100) ? '\n' : 'q') : (g.coin(100) ? 'z' : ' '); if (k >= 2) s += ""; one(s, "shape"); std::vector<char> f(n); for (size_t i = 0; i < n; i++) f[i] = k == 0 ? 1 : k == 1 ? 0 : g.below(k == 2 ? 2 : 300) == 0; if (n < 20000 || k != 0) split(f, "shape"); } }
TEST(all_bytes) { std::string s; for (int i = 0; i < 256; i++) { s += (char)i; s += 'w'; s += (char)i; } one(s, "all bytes"); for (int i = 0; i < 14; i++) s += s; one(s.substr(0, 100000), "all bytes, long"); }
TEST(block_edges) { for (size_t p = 1985; p < 2060; p++) { std::string s(4100, 'k'); s[p] = ' '; one(s, "edge"); std::string t(4100, ' '); t[p] = 'k'; one(t, "edge"); } }
TEST(random_fill) { Rng g(seed + 9); while (more(1.0)) { size_t n = g.coin(4) ? g.below(50000) : g.below(5000); int d = 2 + g.below(40); std::string s(n, 0); for (auto& c : s) c = g.below(d) ? 'a' + g.below(4) : " \n\t\r\f\v"[g.below(6)]; one(s, "random"); std::vector<char> f(n); for (auto& x : f) x = g.below(d) == 0; split(f, "random"); } }
MAIN
