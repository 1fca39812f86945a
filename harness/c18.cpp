#include "h.h"
#include <parlay/thread_specific.h>
#include <parlay/parallel.h>
#include <condition_variable>
struct Obj { size_t id; std::atomic<long> hits{0}; static std::atomic<long> live; Obj(size_t i) : id(i) { live++; } Obj() : id(7777) { live++; } ~Obj() { live--; } Obj(const Obj&) = delete; };
std::atomic<long> Obj::live{0};
struct Gate { std::mutex m; std::condition_variable c; int waiting = 0, gen = 0; int n; Gate(int k) : n(k) {} void wait() { std::unique_lock<std::mutex> l(m); int g = gen; if (++waiting == n) { waiting = 0; gen++; c.notify_all(); } else c.wait(l, [&] { return gen != g; }); } };
static void group(int n, int rounds) {
  begin("%d threads live at once, %d rounds", n, rounds);
  std::mutex mu2; std::map<size_t, int> made; 
  long before = Obj::live;
  {
    parlay::ThreadSpecific<Obj> ts([&](size_t id) { { std::lock_guard<std::mutex> g(mu2); made[id]++; } return Obj(id); });
    for (int r = 0; r < rounds; r++) {
      Gate gate(n); std::vector<size_t> ids(n); std::vector<Obj*> ptr(n); std::vector<std::thread> th; std::atomic<int> bad{0};
      for (int i = 0; i < n; i++) th.emplace_back([&, i] { ids[i] = parlay::my_thread_id(); gate.wait(); ptr[i] = &*ts; if (ptr[i] != &ts.get() || ptr[i]->id != ids[i] || ids[i] != parlay::my_thread_id()) bad++; ptr[i]->hits++; const auto& cts = ts; if (&*cts != ptr[i] || cts.operator->() != ptr[i]) bad++; gate.wait(); });
      for (auto& t : th) t.join(); progress++;
      CHECK(!bad, "a thread did not get its own element in all accesses");
      std::set<size_t> s(ids.begin(), ids.end()); CHECK((int)s.size() == n, "live threads share an identifier"); std::set<Obj*> p(ptr.begin(), ptr.end()); CHECK((int)p.size() == n, "live threads share an element");
      size_t nt = parlay::num_thread_ids(); CHECK(*s.rbegin() < nt, "an identifier is not below num_thread_ids"); 
      std::vector<Obj*> seen; ts.for_each([&](Obj& o) { seen.push_back(&o); }); CHECK(seen.size() == parlay::num_thread_ids(), "for_each visited %zu elements, there are %zu thread ids", seen.size(), parlay::num_thread_ids());
      for (size_t k = 0; k < seen.size(); k++) CHECK(seen[k]->id == k, "for_each: element %zu was constructed for %zu", k, seen[k]->id);
      size_t k = 0; for (auto& o : ts) { CHECK(&o == seen[k], "iteration visits another element at %zu", k); k++; } CHECK(k == seen.size(), "iteration length"); 
      auto b = ts.begin(); for (size_t q = 0; q < k; q++) { CHECK(&b[q] == seen[q] && &*(b + q) == seen[q] && &*(ts.end() - (k - q)) == seen[q], "random access iterator at %zu", q); CHECK((ts.begin() + q) - ts.begin() == (long)q && (ts.begin() + q < ts.end()), "distance"); } { auto it = ts.end(); for (size_t q = k; q-- > 0;) { --it; CHECK(&*it == seen[q], "backward iteration"); } CHECK(it == ts.begin(), "begin"); auto f = ts.begin(); for (size_t q = 0; q < k; q++) CHECK(&*f++ == seen[q], "postincrement"); CHECK(f == ts.end(), "end"); } const auto& cts = ts; k = 0; for (auto& o : cts) CHECK(&o == seen[k++], "const iteration");
    }
    { std::lock_guard<std::mutex> g(mu2); for (auto [id, c] : made) CHECK(c == 1, "the element of id %zu was constructed %d times", id, c); CHECK((long)made.size() == Obj::live - before, "constructed elements"); }
  }
  CHECK(Obj::live == before, "elements leaked or destroyed twice: %ld", (long)Obj::live - before);
}
TEST(basic) { for (int n : {1, 2, 3, 7, 8, 9, 15, 16, 17}) group(n, 3); }
TEST(many) { for (int n : {31, 33, 63, 64, 65, 127, 129}) group(n, 1); }
TEST(deflt) { begin("default construction"); parlay::ThreadSpecific<int> a; parlay::ThreadSpecific<std::string> b([] { return std::string("abc"); }); parlay::ThreadSpecific<std::vector<int>> c; parlay::parallel_for(0, 1000, [&](size_t) { (*a)++; if (*b != "abc") fail("constructor function"); c->push_back(1); }, 1); long s = 0, t = 0; a.for_each([&](int x) { s += x; }); for (auto& v : c) t += v.size(); CHECK(s == 1000 && t == 1000, "sum over all elements is %ld %ld", s, t); }
TEST(churn) { Rng g(seed); begin("threads start and end while others access");
  parlay::ThreadSpecific<Obj> ts([&](size_t id) { return Obj(id); }); std::mutex m2; std::map<size_t, int> owner; std::atomic<int> bad{0};
  auto body = [&](int who) { size_t id = parlay::my_thread_id(); { std::lock_guard<std::mutex> l(m2); if (owner.count(id)) bad++; owner[id] = who; } for (int k = 0; k < 20; k++) { if (ts->id != id) bad++; if (parlay::my_thread_id() != id) bad++; ts.for_each([&](Obj& o) { if (o.id >= parlay::num_thread_ids()) bad++; }); } { std::lock_guard<std::mutex> l(m2); owner.erase(id); } };
  for (int r = 0; r < 30 || (more(0.5) && r < 300); r++) { begin("churn round %d", r); std::vector<std::thread> th; int n = 2 + g.below(40); for (int i = 0; i < n; i++) th.emplace_back(body, i); for (auto& t : th) t.join(); CHECK(!bad, "live threads shared an identifier or an element was wrong"); } }
TEST(random_fill) { Rng g(seed + 3); while (more(1.0)) group(1 + g.below(40), 1 + g.below(3)); }
MAIN
