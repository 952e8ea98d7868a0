// P27 concurrency.  Objects of the catalogue are first used by several threads
// at once, in a process that has used none before (under the race detector),
// then interleaved in one thread, then alone; all digests must agree.
#include "steps.hpp"
#include <thread>
#include <atomic>
static std::atomic<int> inside{0}; static std::atomic<u64> overlaps{0}; static std::atomic<int> ready{0};
static const int NT = 8;
static std::vector<u64> alone(const Kind& k, u64 seed, int n) { std::vector<u64> r; auto s = k.make(seed); for (int i = 0; i < n; ++i) r.push_back(s->step()); return r; }
static u64 sd(std::size_t kind, int copy) { return H::mix(H::st().seed, H::mix(kind * 64 + (u64)copy, 27)); }
static int steps() { return (int)H::n(VERIF_STEPS, VERIF_STEPS * 5); }
// run f(thread) in NT threads that start together; relaxed operations only, so that nothing orders the threads for the race detector
template<class F> static void together(F f) {
  ready = 0; std::vector<std::thread> t;
  for (int k = 0; k < NT; ++k) t.emplace_back([&f, k] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < NT) std::this_thread::yield(); f(k); });
  for (auto& x : t) x.join();
}
struct In { In() { if (inside.fetch_add(1, std::memory_order_relaxed)) overlaps.fetch_add(1, std::memory_order_relaxed); } ~In() { inside.fetch_sub(1, std::memory_order_relaxed); } };
// phase 1: every thread makes and uses an object of its own of each kind, all threads in the same order; phase 2: in orders of their own
static void threads(bool shuffled) {
  const std::size_t K = kinds().size(); std::vector<std::vector<std::vector<u64>>> got(NT, std::vector<std::vector<u64>>(K)); std::vector<std::string> bad(NT);
  const int n = steps();
  together([&](int t) {
    std::vector<std::size_t> ord(K); for (std::size_t k = 0; k < K; ++k) ord[k] = k; H::Rng r(sd(999, t)); if (shuffled) for (std::size_t k = K; k > 1; --k) std::swap(ord[k - 1], ord[r.below(k)]);
    for (std::size_t k : ord) try { In in; auto s = kinds()[k].make(sd(k, t)); for (int i = 0; i < n; ++i) { got[t][k].push_back(s->step()); if (r.below(16) == 0) std::this_thread::yield(); } } catch (std::exception& e) { bad[t] = kinds()[k].name + ": " + e.what(); }
  });
  for (int t = 0; t < NT; ++t) if (!bad[t].empty()) H::viol("threads/exception", bad[t]);
  for (std::size_t k = 0; k < K; ++k) for (int t = 0; t < NT; ++t) { auto a = alone(kinds()[k], sd(k, t), n); CHECK(a == got[t][k], H::cat("threads/", kinds()[k].name), "values obtained among threads differ from those obtained alone"); H::event("steps", (u64)n); H::seen(H::mix(digest(a), k)); }
  u64 o = overlaps; H::event("uses that overlapped another thread's", o); if (o == 0) H::viol("threads/none", "no two threads ever ran at the same time"); H::sample(kinds()[0].name); H::sample(kinds()[K / 2].name);
}
SCEN("threads in step") { threads(false); }
SCEN("threads in different orders") { threads(true); }
// several objects of each kind used in turn in one thread
SCEN("interleaved") {
  const std::size_t K = kinds().size(); const int n = steps() * 2;
  for (std::size_t k = 0; k < K; ++k) {
    H::Rng r(sd(k, 777)); std::vector<std::unique_ptr<Step>> s; std::vector<std::vector<u64>> got(4);
    for (int c = 0; c < 3; ++c) s.push_back(kinds()[k].make(sd(k, c))); std::size_t other = r.below(K); s.push_back(kinds()[other].make(sd(other, 3)));
    for (;;) { bool all = true; for (auto& g : got) all = all && (int)g.size() >= n; if (all) break; std::size_t c = r.below(4); got[c].push_back(s[c]->step()); }
    for (std::size_t c = 0; c < 4; ++c) { std::size_t kk = c < 3 ? k : other; auto a = alone(kinds()[kk], sd(kk, (int)c), (int)got[c].size()); CHECK(a == got[c], H::cat("interleaved/", kinds()[kk].name), "values obtained in turn with other objects differ from those obtained alone"); H::event("steps", got[c].size()); H::seen(digest(a)); }
  }
  // in a thread of its own and after everything else: still the same
  for (std::size_t k = 0; k < K; ++k) { auto a = alone(kinds()[k], sd(k, 5), n); std::vector<u64> b; std::thread t([&] { b = alone(kinds()[k], sd(k, 5), n); }); t.join(); CHECK(a == b, H::cat("thread/", kinds()[k].name), "another thread obtains other values"); }
}
// threads that create and destroy objects all the time
SCEN("short-lived objects") {
  const std::size_t K = kinds().size(); std::vector<std::vector<std::pair<std::pair<std::size_t, int>, u64>>> got(NT); const u64 n = H::n(VERIF_STEPS * 15, VERIF_STEPS * 100);
  together([&](int t) { H::Rng r(sd(5, t)); for (u64 j = 0; j < n; ++j) { In in; std::size_t k = r.below(K); int c = (int)r.below(3); got[t].push_back({ { k, c }, kinds()[k].make(sd(k, c))->step() }); } });
  for (auto& g : got) for (auto& x : g) { u64 a = kinds()[x.first.first].make(sd(x.first.first, x.first.second))->step(); CHECK(a == x.second, H::cat("short/", kinds()[x.first.first].name), "first value differs from the one obtained alone"); H::seen(a); }
  H::event("objects", NT * n); H::event("uses that overlapped another thread's", overlaps);
}
#ifdef VERIF_GROUP
// operations too slow for the catalogue, by all threads at once in a fresh process
template<class E> void far(const char* n) {
  if constexpr (Far<E>::value) {
    auto job = [](int t) { std::vector<u64> v; E e; e.seed((u32)(t + 1)); e.discard(1000000000ull * (t % 3 + 1) + t); for (int k = 0; k < 50; ++k) v.push_back(digest(e())); e.discard(((u64)1 << 40) + t); v.push_back(digest(e())); return v; };
    std::vector<std::vector<u64>> got(NT); together([&](int t) { In in; got[t] = job(t); });
    for (int t = 0; t < NT; ++t) { auto a = job(t); CHECK(a == got[t], H::cat("far/", n), "values after a long discard among threads differ from those obtained alone"); H::seen(digest(a)); } H::event("long discards", 2 * NT);
  }
}
SCEN("far discards") { H::eval();
#define X(n) far<E_##n>(#n);
VERIF_GROUP(X)
#undef X
  H::event("uses that overlapped another thread's", overlaps);
}
#endif
#ifdef VERIF_RDEV
#include <boost/random/random_device.hpp>
#include <fcntl.h>
#include <unistd.h>
SCEN("random devices") {
  std::vector<std::string> files; for (int t = 0; t < NT; ++t) { char nm[] = "rdevXXXXXX"; int fd = mkstemp(nm); H::Rng r(sd(3, t)); std::vector<u32> v(20000); for (auto& x : v) x = (u32)r.next(); if (write(fd, v.data(), v.size() * 4) != (ssize_t)(v.size() * 4)) H::viol("setup", "cannot write"); close(fd); files.push_back(nm); }
  std::vector<std::string> bad(NT); std::vector<u64> cnt(NT);
  together([&](int t) { H::Rng r(sd(3, t)); try { for (int round = 0; round < 20; ++round) { In in; boost::random::random_device d("./" + files[t]); H::Rng q(sd(3, t)); for (int k = 0; k < 900; ++k) { u32 x = d(), y = (u32)q.next(); ++cnt[t]; if (x != y) { bad[t] = H::cat("word ", k, " is ", x, " instead of ", y); return; } } u32 b[7]; d.generate(b, b + 7); for (u32 x : b) if (x != (u32)q.next()) { bad[t] = "generate"; return; } boost::random::random_device u; u(); } } catch (std::exception& e) { bad[t] = e.what(); } });
  for (int t = 0; t < NT; ++t) { CHECK(bad[t].empty(), "random_device", bad[t]); H::event("words", cnt[t]); H::eval(cnt[t]); H::seen(t); unlink(files[t].c_str()); } H::event("uses that overlapped another thread's", overlaps);
}
#endif
