// P10, P11, P12: uniform integers.  VERIF_B = engine type index, VERIF_PROP.
#include "h.hpp"
#include <limits>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/variate_generator.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/ranlux.hpp>
namespace br = boost::random;

#include "src.hpp"
template<class T> u64 width(T a, T b) { return (u64)b - (u64)a; }       // max - min
template<class T> T at(T a, u64 k) { return (T)((u64)a + k); }
template<class T> std::vector<std::pair<T,T>> ranges(H::Rng& g, int extra) {
  const T mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max(); u64 W = width(mn, mx);
  std::vector<u64> ws = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 24, 25, 26, 31, 63, 99, 124, 127, 128, 215, 216, 254, 255, 256, 257, 511, 999, 65533, 65534, 65535, 65536, 65537, 16777214, 16777215, 16777216, 2147483645, 2147483646, 2147483647u, 2147483648u, 4294967294u, 4294967295u, 4294967296ull, 4294967297ull, (1ull << 40) - 1, (1ull << 48), (1ull << 53) - 1, (1ull << 53), (1ull << 61) - 2, (1ull << 62), (1ull << 63) - 2, (1ull << 63) - 1, 1ull << 63, (1ull << 63) + 1, 0xAAAAAAAAAAAAAAAAull, 0xC000000000000000ull, ~0ull - 2, ~0ull - 1, ~0ull };
  for (int i = 0; i < extra; ++i) ws.push_back(g.next() >> g.below(64));
  std::vector<std::pair<T,T>> r;
  for (u64 w : ws) { if (w > W) continue; u64 slack = W - w; u64 offs[] = { 0, slack, slack / 2, (u64)(W / 2 + (mn < 0)) };
    for (int k = 0; k < 4; ++k) { u64 o = k == 3 ? std::min(offs[3], slack) : offs[k]; if (k && o == 0) continue; r.push_back({ at(mn, o), at(mn, o + w) }); } }
  r.push_back({ mn, mx }); r.push_back({ mx, mx }); r.push_back({ mn, mn }); if (mn < 0) { r.push_back({ (T)-1, (T)1 }); r.push_back({ (T)-6, (T)6 }); }
  return r;
}
template<class B> std::vector<std::pair<B,B>> engine_ranges(H::Rng& g, int extra) {
  if constexpr (mk<B>::real) return { { (B)0, (B)1 } };
  else { std::vector<std::pair<B,B>> v = ranges<B>(g, extra), r; for (auto& p : v) if (p.first < p.second) r.push_back(p); return r; }
}
template<class B, class T> std::string what(const std::pair<B,B>& e, T a, T b) { return H::cat(mk<B>::real ? "real engine" : "engine", " [", (long double)e.first, ",", (long double)e.second, "] of ", sizeof(B) * 8, " bits, request [", H::str(a), ",", H::str(b), "] of ", sizeof(T) * 8, " bits"); }

// ---- P10
template<class B, class T> void bounds() {
  H::Rng g = H::rng(); auto es = engine_ranges<B>(g, H::n(6, 60)); auto rs = ranges<T>(g, H::n(12, 200)); int pairs = 0;
  for (auto& e : es) for (auto& r : rs) {
    if (H::quick() && g.below(3)) continue;
    ++pairs; H::Rng rr = H::rng(pairs); Src s; s.mode = 1; s.rng = &rr; s.limit = 4000000; auto eng = make<B>(s, e.first, e.second); const u64 R = eng.R(), top = R - 1;
    br::uniform_int_distribution<T> d(r.first, r.second), o(r.first, r.first); boost::uniform_int<T> old(r.first, r.second); typedef typename br::uniform_int_distribution<T>::param_type P;
    std::set<T> seen; const u64 W = width(r.first, r.second); bool small = W < 200; u64 smallN = small ? W + 1 : 0;
    std::vector<std::vector<u64>> scripts = { {}, std::vector<u64>(3, 0), std::vector<u64>(3, top), { 0, top, 0, top }, { top, 0, top, 0 }, { top - 1, top, top / 2, top / 2 + 1 }, { top / 2, 0, top / 2, 0 }, std::vector<u64>(12, 0), std::vector<u64>(12, top), { 1 % (R ? R : 2), 0, 1 % (R ? R : 2), 0 } };
    try {
      for (auto& sc : scripts) for (int k = 0; k < 4; ++k) {
        s.script = sc; s.pos = 0; s.drawn = 0;
        T v = k == 0 ? d(eng) : k == 1 ? o(eng, P(r.first, r.second)) : k == 2 ? old(eng) : (r.first == 0 && r.second < std::numeric_limits<T>::max() && k == 3 ? old(eng, (T)(r.second + 1)) : d(eng));
        CHECK(v >= r.first && v <= r.second, "outside", what(e, r.first, r.second), ": result ", H::str(v)); if (small) seen.insert(v); H::event("scripted draws");
        if (r.first == 0 && k == 3 && r.second < std::numeric_limits<T>::max()) { br::random_number_generator<decltype(eng), T> rn(eng); s.pos = 0; T x = rn((T)(r.second + 1)); CHECK(x >= 0 && x <= r.second, "rng", "random_number_generator(", H::str(r.second), "+1) gave ", H::str(x)); }
      }
      s.script.clear(); u64 n = small ? smallN * 45 : 40;
      for (u64 i = 0; i < n; ++i) { s.drawn = 0; T v = d(eng); if (!(v >= r.first && v <= r.second)) { H::viol("outside", H::cat(what(e, r.first, r.second), ": result ", H::str(v))); break; } H::eval(); if (small) seen.insert(v); }
      H::event("random draws", n);
      if (small) CHECK(seen.size() == smallN, "unreachable", what(e, r.first, r.second), ": only ", seen.size(), " of ", smallN, " values seen in ", n, " draws");
      // the extremes must be reachable: when one engine value decides, by the extreme engine values; else look at the outer thirds
      if (!small) { u64 lo3 = 0, hi3 = 0; for (int i = 0; i < 60; ++i) { s.drawn = 0; u64 k = width(r.first, (T)d(eng)); lo3 += k < W / 3; hi3 += k > W - W / 3; } CHECK(lo3 && hi3, "unreachable", what(e, r.first, r.second), ": no value in an outer third of the range in 60 draws"); }
    } catch (Src::Over&) { H::viol("endless", H::cat(what(e, r.first, r.second), ": no result after ", s.limit, " engine values")); }
    H::seen(what(e, r.first, r.second)); if (pairs == 30) H::sample(what(e, r.first, r.second));
  }
}
// ---- P11: all engine sequences up to a length, each result equally often at each length
template<class B, class T> void exact_one(const std::pair<B,B>& e, T a, T b, u64 budget, bool old) {
  Src s; s.mode = 0; auto eng = make<B>(s, e.first, e.second); u64 R = eng.R(); u64 N = width(a, b) + 1;
  int D = 0; double nodes = 1; while (nodes * R <= budget && D < 40) { nodes *= R; ++D; } if (D == 0) return;
  br::uniform_int_distribution<T> d(a, b); boost::uniform_int<T> od(a, b);
  std::vector<std::vector<u64>> cnt(D + 1); double mass = 0; u64 leaves = 0; s.limit = D;
  for (;;) {
    s.pos = 0; s.drawn = 0; s.used.clear(); bool over = false; T v = a;
    try { v = old ? od(eng) : d(eng); } catch (Src::Over&) { over = true; }
    if (!over) {
      ++leaves; std::size_t L = s.used.size(); mass += std::pow((double)R, -(double)L);
      if (!(v >= a && v <= b)) { H::viol("outside", H::cat(what(e, a, b), ": result ", H::str(v))); return; }
      auto& c = cnt[L]; if (c.empty()) c.assign(N, 0); c[width(a, v)]++;
    }
    s.script = s.used; while (!s.script.empty() && s.script.back() == R - 1) s.script.pop_back();
    if (s.script.empty()) break; ++s.script.back();
  }
  H::eval(leaves); H::event("engine sequences", leaves); H::event("range pairs");
  for (int L = 0; L <= D; ++L) if (!cnt[L].empty()) for (u64 i = 0; i < N; ++i) if (cnt[L][i] != cnt[L][0]) { H::viol("biased", H::cat(what(e, a, b), ": of all sequences of ", L, " engine values ", cnt[L][0], " give ", H::str(a), " but ", cnt[L][i], " give ", H::str(at(a, i)))); return; }
  if (leaves) H::seen(what(e, a, b)); else H::event("pairs beyond the budget");
}
template<class B, class T> void exact() {
  H::Rng g = H::rng(); if constexpr (mk<B>::real) return; else {
    typedef typename std::make_unsigned<B>::type UB; const u64 BW = (UB)~(UB)0, TW = width(std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
    const B bl = std::numeric_limits<B>::min(), bh = std::numeric_limits<B>::max(); const T tl = std::numeric_limits<T>::min(), th = std::numeric_limits<T>::max();
    auto place = [&](u64 R, int k) { u64 slack = BW - (R - 1); u64 o = k == 0 ? 0 : k == 1 ? slack : g.below(slack + 1); return std::pair<B,B>((B)((u64)bl + o), (B)((u64)bl + o + R - 1)); };
    auto tplace = [&](u64 N, int k) { u64 slack = TW - (N - 1); u64 o = k == 0 ? 0 : k == 1 ? slack : slack + 1 == 0 ? g.next() : g.below(slack + 1); return std::pair<T,T>(at(tl, o), at(tl, o + N - 1)); };
    u64 budget = H::n(20000, 300000); int pairs = (int)H::n(250, 2500);
    for (int i = 0; i < pairs; ++i) {
      u64 R = i < 120 ? 2 + i % 12 : 2 + g.below(g.coin() ? 14 : 254), N = i < 120 ? 2 + g.below(i < 60 ? 20 : 254) : 2 + g.below(254);
      if (i % 10 == 3) { N = 1; u64 p = R; while (p <= 256 && g.below(4)) { N = p; p *= R; } if (N == 1) N = R; }     // powers of the engine range
      if (i % 10 == 7) { u64 p = R; while (p * R <= 256 && g.coin()) p *= R; N = p + g.below(3); if (N > 1 && g.coin()) --N; }
      if (N > 256) N = 256; if (N < 1) N = 1; if (R - 1 > BW) continue;
      auto e = place(R, i % 3); auto t = tplace(N, (i / 3) % 3); exact_one<B,T>(e, t.first, t.second, budget, i % 5 == 4);
    }
    if (sizeof(T) >= 2) for (int i = 0; i < (int)H::n(12, 100); ++i) { u64 R = 2 + g.below(30), N = 257 + g.below(4000); auto e = place(R, i % 3); auto t = tplace(N, i % 2); exact_one<B,T>(e, t.first, t.second, H::n(200000, 2000000), false); }
    if (sizeof(B) >= 2) for (int i = 0; i < (int)H::n(25, 200); ++i) { u64 R = i % 4 == 0 ? 65536 : 300 + g.below(65200), N = sizeof(T) == 1 ? 1 + g.below(256) : 1 + g.below(i % 3 ? R : 70000); if (i % 7 == 6 && sizeof(T) > 1) N = R - g.below(3); if (N > 65536 && sizeof(T) == 2) N = 65536; auto e = place(R, i % 3); auto t = tplace(N, i % 2); exact_one<B,T>(e, t.first, t.second, R, false); }
    H::sample("every sequence of engine values enumerated for each (engine range, request) pair");
  }
}
inline double zchi(double x, double k) { return (std::pow(x / k, 1.0 / 3) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k)); }
template<class B, class T> void stat() {
  H::Rng g = H::rng(99); auto es = engine_ranges<B>(g, H::n(4, 30)); auto rs = ranges<T>(g, H::n(10, 60)); int done = 0;
  for (int t = 0; t < (int)H::n(60, 1500); ++t) {
    auto e = es[g.below(es.size())]; auto r = rs[g.below(rs.size())];
    u64 W = width(r.first, r.second); if (W < 15) continue;
    H::Rng rr = H::rng(1000 + t); Src s; s.mode = 1; s.rng = &rr; s.limit = ~0ull; auto eng = make<B>(s, e.first, e.second); if (eng.R() && eng.R() < 4) continue;
    br::uniform_int_distribution<T> d(r.first, r.second); const int n = (int)H::n(10000, 60000);
    const int K = 16; std::vector<double> top(K), low(K), m3(3), m5(5), m7(7); double ser = 0; int pb = -1; std::vector<double> pairs(64);
    const u128 N = (u128)W + 1;
    for (int i = 0; i < n; ++i) { u64 k = width(r.first, d(eng)); int b = (int)((u128)k * K / N); top[b]++; low[k & 15]++; m3[k % 3]++; m5[k % 5]++; m7[k % 7]++; int c = b >> 1; if (pb >= 0) pairs[pb * 8 + c]++; pb = c; }
    auto test = [&](std::vector<double>& c, const char* nm, std::function<double(int)> p) { double x = 0; for (std::size_t i = 0; i < c.size(); ++i) { double ex = p((int)i) * n; x += (c[i] - ex) * (c[i] - ex) / ex; } double z = zchi(x, c.size() - 1); CHECK(z < 7.5, "biased-statistically", what(e, r.first, r.second), ": chi-square of ", nm, " z ", z, " over ", n, " draws"); };
    auto ceilp = [&](int i, u64 K_) { u128 lo = (N * i + K_ - 1) / K_, hi = (N * (i + 1) + K_ - 1) / K_; return (double)(hi - lo) / (double)N; };
    auto modp = [&](int i, u64 m) { return (double)((N - 1 - i) / m + 1) / (double)N; };
    test(top, "16 value bins", [&](int i) { return ceilp(i, K); }); test(low, "residues mod 16", [&](int i) { return modp(i, 16); }); test(m3, "residues mod 3", [&](int i) { return modp(i, 3); }); test(m5, "residues mod 5", [&](int i) { return modp(i, 5); }); test(m7, "residues mod 7", [&](int i) { return modp(i, 7); });
    if (W > 100000) test(pairs, "successive pairs", [&](int) { return 1.0 / 64; });
    H::eval(n); H::event("draws tested", n); H::seen(what(e, r.first, r.second)); if (++done == 9) H::sample(what(e, r.first, r.second));
  }
}
// ---- P12
template<class B, class T> void small() {
  H::Rng g = H::rng(5); const T tl = std::numeric_limits<T>::min(), th = std::numeric_limits<T>::max(); const u64 TW = width(tl, th);
  std::vector<std::pair<B,B>> es; bool full = true;
  auto one = [&](const std::pair<B,B>& e, T a, T b, const std::vector<u64>* probe) {
    Src s; s.mode = 1; auto eng = make<B>(s, e.first, e.second); u64 R = eng.R(), N = width(a, b) + 1; br::uniform_smallint<T> d(a, b), o(a, a); typename br::uniform_smallint<T>::param_type P(a, b);
    s.script.resize(1); s.limit = 1; std::vector<u32> c(probe ? 0 : N); bool bad = false; u64 cnt = probe ? probe->size() : R;
    for (u64 i = 0; i < cnt && !bad; ++i) {
      s.script[0] = probe ? (*probe)[i] : i; s.pos = 0; s.drawn = 0; T v;
      try { v = (i & 15) ? d(eng) : o(eng, P); } catch (Src::Over&) { H::viol("draws", H::cat(what(e, a, b), ": more than one engine value used")); return; }
      if (s.drawn != 1 && !(a == b && s.drawn == 0)) { H::viol("draws", H::cat(what(e, a, b), ": ", s.drawn, " engine values used")); bad = true; }
      if (!(v >= a && v <= b)) { H::viol("outside", H::cat(what(e, a, b), ": result ", H::str(v))); bad = true; } else if (!probe) c[width(a, v)]++;
    }
    H::eval(cnt); H::event("engine values", cnt); H::event("range pairs"); H::seen(what(e, a, b));
    if (!probe && !bad) { u32 mn = *std::min_element(c.begin(), c.end()), mx = *std::max_element(c.begin(), c.end()); u32 tol = mk<B>::real ? 2 : 1; CHECK(mx - mn <= tol, "quantization", what(e, a, b), ": over a full cycle the counts range from ", mn, " to ", mx);
      // documented bound on the square sum of relative errors
      double rb = (double)R, ro = (double)N, m = (double)(R % N), sum = 0; for (u32 x : c) { double t = x / rb * ro - 1; sum += t * t; } if (!mk<B>::real) CHECK(sum <= ro / (rb * rb) * m * (ro - m) * (1 + 1e-9) + 1e-9, "bound", what(e, a, b), ": square sum ", sum, " exceeds the documented bound"); }
  };
  if constexpr (mk<B>::real) {
    if (std::numeric_limits<B>::digits <= 24) for (u64 N : { 1, 2, 3, 10, 97, 128, 251, 256, 1000, 4097, 65521, 65536, 1000003 }) { if (N - 1 > TW || (N > 20 && H::quick() && g.below(3))) continue; u64 slack = TW - (N - 1); T a = at(tl, g.coin() ? 0 : slack / 2); one({ 0, 1 }, a, at(a, N - 1), 0); }
    for (int i = 0; i < (int)H::n(300, 5000); ++i) { u64 N1 = (g.next() >> g.below(64)); if (N1 > TW) N1 = i % 2 ? TW : N1 & TW; T a = at(tl, TW - N1 == ~0ull ? g.next() : g.below(TW - N1 + 1)); auto eng = std::numeric_limits<B>::digits >= 64 ? 0 : (u64)1 << std::numeric_limits<B>::digits; std::vector<u64> p = { 0, 1, eng - 1, eng - 2, eng / 2, eng / 2 - 1, eng / 2 + 1 }; for (int k = 0; k < 20; ++k) p.push_back(g.below(eng)); one({ 0, 1 }, a, at(a, N1), &p); }
  } else {
    typedef typename std::make_unsigned<B>::type UB; const u64 BW = (UB)~(UB)0; const B bl = std::numeric_limits<B>::min();
    for (int i = 0; i < (int)H::n(250, 4000); ++i) {
      u64 R = i < 80 ? 2 + g.below(254) : sizeof(B) == 1 ? 256 - g.below(3) : i < 160 ? 2 + g.below(5000) : i % 2 ? 65536 : 60000 + g.below(5537); if (R - 1 > BW) continue;
      u64 N = i % 8 == 0 ? R : i % 8 == 1 ? R - 1 : i % 8 == 2 ? R / 2 + 1 : 1 + g.below(R); if (N - 1 > TW) N = 1 + g.below(256); if (N > R) continue; if (i % 11 == 0 && sizeof(B) > 2 && H::n(0, 1)) {}
      u64 bs = BW - (R - 1), ts = TW - (N - 1); B el = (B)((u64)bl + (i % 3 == 0 ? 0 : i % 3 == 1 ? bs : bs + 1 == 0 ? g.next() : g.below(bs + 1))); T a = at(tl, i % 5 == 0 ? 0 : i % 5 == 1 ? ts : ts + 1 == 0 ? g.next() : g.below(ts + 1));
      one({ el, (B)((u64)el + R - 1) }, a, at(a, N - 1), 0);
    }
    // large engine ranges: extreme and random engine values
    for (auto& e : engine_ranges<B>(g, 20)) for (auto& r : ranges<T>(g, 10)) { u64 R1 = width(e.first, e.second), N1 = width(r.first, r.second); if (N1 > R1 || g.below(4)) continue; std::vector<u64> p = { 0, R1, R1 ? R1 - 1 : 0, R1 / 2, N1, N1 < R1 ? N1 + 1 : 0 }; for (int k = 0; k < 10; ++k) p.push_back(R1 + 1 == 0 ? g.next() : g.below(R1 + 1)); one(e, r.first, r.second, &p);
      if (N1 < 8 && R1 > 1000) { H::Rng rr = H::rng(N1); Src s; s.mode = 1; s.rng = &rr; auto eng = make<B>(s, e.first, e.second); br::uniform_smallint<T> d(r.first, r.second); std::vector<double> c(N1 + 1); int n = 3000; for (int i = 0; i < n; ++i) c[width(r.first, d(eng))]++; double x = 0, ex = n / (N1 + 1.0); for (double v : c) x += (v - ex) * (v - ex) / ex; if (N1) CHECK(zchi(x, N1) < 7.5, "uneven", what(e, r.first, r.second), ": chi-square ", x); } }
  }
  H::sample(H::cat("full cycles of engines of up to 65536 values"));
}

#if VERIF_PROP == 10
#define RUN(B, T) bounds<B, T>();
#elif VERIF_PROP == 11
#define RUN(B, T) exact<B, T>(); stat<B, T>();
#else
#define RUN(B, T) small<B, T>();
#endif
#define R1(B, T) static H::Reg SCEN_CAT(reg_, __COUNTER__)("engine " #B " request " #T, [] { RUN(B, T) });
typedef long double ldouble; typedef signed char i8_; typedef unsigned long ulong_;
#define RB(B) R1(B, int8_t) R1(B, uint8_t) R1(B, int16_t) R1(B, uint16_t) R1(B, int32_t) R1(B, uint32_t) R1(B, int64_t) R1(B, uint64_t) R1(B, long long)
RB(VERIF_B)
