#include "h.h"
#include <parlay/internal/work_stealing_deque.h>
struct Job { int id; std::atomic<int> taken{0}; };
using D = parlay::internal::Deque<Job>;
// sequential histories against a list
TEST(sequential) {
  Rng g(seed);
  auto dp = std::make_unique<D>(); 
  for (int round = 0; round < 400; round++) { begin("sequential history %d", round); std::vector<Job> js(900); for (int i = 0; i < 900; i++) js[i].id = i; std::vector<Job*> m; auto d = std::make_unique<D>(); size_t next = 0; size_t head = 0; size_t slots = 0; /* next free slot of the array */ 
    int bias = 1 + g.below(4); (void)slots;
    for (int k = 0; k < 700; k++) { int op = g.below(3 + bias); 
      if (op >= 2 && next < 900 && m.size() - head < 800) { bool e = d->push_bottom(&js[next]); m.push_back(&js[next]); next++; if (e) CHECK(m.size() - head == 1, "push reported an empty queue holding %zu jobs", m.size() - head - 1); }
      else if (op == 0) { auto r = d->pop_bottom(); if (m.size() == head) { CHECK(r == nullptr, "pop_bottom of an empty deque returned a job"); } else { CHECK(r == m.back(), "pop_bottom returned %d, expected %d", r ? r->id : -1, m.back()->id); m.pop_back(); } if (m.size() == head) { m.clear(); head = 0; } }
      else if (op == 1) { auto r = d->pop_top(); if (m.size() == head) CHECK(r.first == nullptr && r.second, "pop_top of an empty deque"); else { CHECK(r.first == m[head], "pop_top returned %d, expected %d", r.first ? r.first->id : -1, m[head]->id); head++; CHECK(r.second == (m.size() == head), "pop_top reported empty=%d with %zu jobs left", r.second, m.size() - head); } } } }
}
TEST(exhaustive_histories) {
  for (int len = 1; len <= 8; len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= 3; for (int c = 0; c < tot; c++) { begin("history length %d code %d", len, c); D* d = new D; std::vector<Job> js(len); std::vector<Job*> m; int x = c, next = 0; for (int i = 0; i < len; i++, x /= 3) { if (x % 3 == 0) { d->push_bottom(&js[next]); js[next].id = next; m.push_back(&js[next++]); } else if (x % 3 == 1) { auto r = d->pop_bottom(); CHECK(r == (m.empty() ? nullptr : m.back()), "pop_bottom at step %d", i); if (!m.empty()) m.pop_back(); } else { auto r = d->pop_top(); CHECK(r.first == (m.empty() ? nullptr : m.front()), "pop_top at step %d", i); if (!m.empty()) m.erase(m.begin()); } } delete d; } }
}
TEST(concurrent) {
  Rng g(seed + 1); int round = 0;
  while (round < 20 || more(1.0)) {
    int thieves = 1 + g.below(6), N = 20 + g.below(3000), style = g.below(4); begin("owner with %d thieves, %d jobs, style %d", thieves, N, style); round++;
    std::vector<Job> js(N); for (int i = 0; i < N; i++) js[i].id = i; auto d = std::make_unique<D>(); std::atomic<bool> stop{false}, go{false};
    std::atomic<int> stolen{0};
    auto take = [&](Job* j, const char* who) { CHECK(j >= js.data() && j < js.data() + N, "%s returned a job that was never pushed", who); int t = j->taken.fetch_add(1); CHECK(t == 0, "job %d was handed out twice (last by %s)", j->id, who); };
    std::vector<std::thread> ts; for (int t = 0; t < thieves; t++) ts.emplace_back([&] { int last = -1; (void)last; while (!go) {} while (!stop) { auto r = d->pop_top(); if (r.first) { take(r.first, "a steal"); stolen++; } } });
    go = true; int next = 0, depth = 0; Rng q(seed * 977 + round);
    while (next < N) { int burst = style == 0 ? 1 : style == 1 ? 1 + q.below(3) : style == 2 ? 1 + q.below(50) : 1 + q.below(300);
      for (int b = 0; b < burst && next < N && depth < 900; b++) { d->push_bottom(&js[next++]); depth++; }
      int pops = style == 0 ? 1 : depth >= 600 ? depth + 1 : (int)q.below(burst + 2); for (int b = 0; b < pops; b++) { auto r = d->pop_bottom(); if (r) { take(r, "pop_bottom"); } else { depth = 0; break; } } }
    while (auto r = d->pop_bottom()) take(r, "pop_bottom");
    stop = true; for (auto& t : ts) t.join();
    while (auto r = d->pop_bottom()) take(r, "pop_bottom");
    for (int i = 0; i < N; i++) CHECK(js[i].taken == 1, "job %d was handed out %d times", i, js[i].taken.load());
  }
}
// owner order: newest first among the jobs it gets; thieves: oldest first
TEST(orders) {
  Rng g(seed + 2);
  for (int r = 0; r < 60; r++) { int N = 50 + g.below(800); begin("orders %d", N); std::vector<Job> js(N); for (int i = 0; i < N; i++) js[i].id = i; auto d = std::make_unique<D>(); for (int i = 0; i < N; i++) d->push_bottom(&js[i]); std::atomic<bool> go{false}; std::vector<int> st; std::thread t([&] { while (!go) {} for (int k = 0; k < 200000; k++) { auto x = d->pop_top(); if (x.first) st.push_back(x.first->id); else if (x.second) break; } }); go = true; std::vector<int> own; while (auto x = d->pop_bottom()) own.push_back(x->id); t.join();
    for (size_t i = 1; i < st.size(); i++) CHECK(st[i] > st[i - 1], "thief got job %d after %d", st[i], st[i - 1]); for (size_t i = 1; i < own.size(); i++) CHECK(own[i] < own[i - 1], "owner got job %d after %d", own[i], own[i - 1]); CHECK(st.size() + own.size() == (size_t)N, "%zu jobs of %d handed out", st.size() + own.size(), N); }
}
MAIN
