// P13: continuous uniform values.  VERIF_B = engine type.
#include "h.hpp"
#include "src.hpp"
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/generate_canonical.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/mixmax.hpp>
namespace br = boost::random;
typedef __float128 f128;
typedef long double ldouble;

template<class B> std::vector<std::pair<B,B>> engines(H::Rng& g, int extra) {
  if constexpr (mk<B>::real) return { { (B)0, (B)1 } };
  else {
    const B mn = std::numeric_limits<B>::min(), mx = std::numeric_limits<B>::max(); const u64 W = (u64)mx - (u64)mn;
    std::vector<u64> ws = { 1, 2, 3, 4, 6, 7, 8, 9, 15, 16, 25, 31, 63, 99, 127, 128, 250, 253, 254, 255, 256, 257, 4095, 4096, 65534, 65535, 65536, 16777213, 16777214, 16777215, 16777216, 2147483645, 2147483646, 2147483647u, 2147483648u, 4294967294u, 4294967295u, 4294967296ull, (1ull << 40), (1ull << 52), (1ull << 53) - 2, (1ull << 53) - 1, (1ull << 53), (1ull << 61) - 2, (1ull << 63) - 2, (1ull << 63) - 1, 1ull << 63, ~0ull - 1024, ~0ull - 1, ~0ull };
    for (int i = 0; i < extra; ++i) ws.push_back(1 + (g.next() >> g.below(63)));
    std::vector<std::pair<B,B>> r;
    for (u64 w : ws) { if (w > W) continue; u64 sl = W - w; u64 off[] = { 0, sl, std::min<u64>(sl, mn < 0 ? W / 2 + 1 : 1), sl ? g.below(sl) : 0 }; for (int k = 0; k < 4; ++k) if (!k || off[k]) r.push_back({ (B)((u64)mn + off[k]), (B)((u64)mn + off[k] + w) }); }
    return r;
  }
}
template<class B> std::string ename(const std::pair<B,B>& e) { return mk<B>::real ? H::cat("real engine of ", std::numeric_limits<B>::digits, " digits") : H::cat("engine [", (long double)e.first, ",", (long double)e.second, "] of ", sizeof(B) * 8, " bits"); }
template<class B> std::vector<std::vector<u64>> scripts(u64 R, H::Rng& g, int rnd) {
  const u64 top = R - 1; std::vector<std::vector<u64>> s = { {}, std::vector<u64>(80, top), { 0, top }, { top, 0 }, { top, top }, { top, top - 1, top }, { top / 2 }, { top / 2 + 1 }, { 1 }, { 0, 1 }, { 0, 0, 1 }, { top - 1 }, { top, top, 0 }, std::vector<u64>(80, top / 2), std::vector<u64>(80, top - 1) };
  for (int k = 0; k < 8; ++k) s.push_back({ top - std::min<u64>(top, g.below((u64)1 << g.below(40))), top - std::min<u64>(top, g.below((u64)1 << g.below(40))) });
  for (int k = 0; k < rnd; ++k) { std::vector<u64> v; for (int i = 0; i < 70; ++i) v.push_back(k % 2 ? g.below(R) : R == 0 ? g.next() >> g.below(64) : g.below(R) >> g.below(64)); s.push_back(v); }
  return s;
}
inline f128 fabs_(f128 x) { return x < 0 ? -x : x; }

template<class B, class T, std::size_t bits> void canon(const std::pair<B,B>& e) {
  H::Rng g = H::rng(bits); const int dig = std::numeric_limits<T>::digits; const int b = (int)std::min<std::size_t>(bits, dig);
  Src s; s.mode = 1; H::Rng rr = H::rng(7); s.rng = &rr; s.limit = 1000; auto eng = make<B>(s, e.first, e.second); const u64 R = eng.R(); const u128 RR = R ? (u128)R : (u128)1 << 64;
  u64 k = 1; { u128 m = RR; while (m < ((u128)1 << b)) { m *= RR; ++k; } }
  const f128 ep = std::numeric_limits<T>::epsilon();
  T prev = -1;
  for (auto& sc : scripts<B>(R, g, (int)H::n(12, 200))) {
    s.script = sc; s.script.resize(90, sc.size() > 20 ? sc.back() : 0); s.pos = 0; s.drawn = 0; T v;
    try { v = br::generate_canonical<T, bits>(eng); } catch (Src::Over&) { H::viol("canonical-endless", H::cat(ename(e), " bits ", bits, ": no end after 1000 engine values")); return; }
    u128 S = 0, M = 1; for (u64 i = 0; i < k; ++i) { S += (u128)s.script[i] * M; M *= RR; }     // M may wrap to 0 at 2^128 only when it is exactly 2^128
    f128 q = M ? (f128)S / (f128)M : (f128)S / ((f128)((u128)1 << 127) * 2);
    std::string w = H::cat("generate_canonical<", sizeof(T) * 8, " bit real, ", bits, "> from ", ename(e), " digits ", s.script);
    CHECK(v >= 0 && v < 1, "canonical-range", w, " gave ", (long double)v);
    CHECK(s.drawn == k, "canonical-draws", w, " drew ", s.drawn, " engine values, needs ", k);
    CHECK(fabs_((f128)v - q) <= ep * (3 * k) * q || (q >= 1 - 3 * ep && v >= 1 - 3 * ep), "canonical-value", w, " gave ", (long double)v, " expected ", (long double)q);
    H::event("canonical values"); H::seen(w);
  }
}
template<class B, class T> void u01(const std::pair<B,B>& e) {
  H::Rng g = H::rng(1); Src s; s.mode = 1; H::Rng rr = H::rng(7); s.rng = &rr; s.limit = 1000; auto eng = make<B>(s, e.first, e.second); const u64 R = eng.R(); const f128 RR = R ? (f128)R : (f128)((u128)1 << 64);
  const f128 ep = std::numeric_limits<T>::epsilon();
  br::uniform_01<T> d; CHECK(d.min() == 0 && d.max() == 1, "u01-bounds", "uniform_01 bounds");
  br::uniform_01<decltype(eng), T> old(eng); br::uniform_01<decltype(eng)&, T> oldr(eng); br::uniform_01<decltype(eng)*, T> oldp(&eng);
  for (auto& sc : scripts<B>(R, g, (int)H::n(12, 300))) for (int k = 0; k < 4; ++k) {
    s.script = sc; if (s.script.size() < 90) s.script.resize(sc.size() + 3, 0); if (sc.size() > 20) s.script.resize(5), s.script.push_back(0); s.pos = 0; s.drawn = 0; T v;
    try { v = k == 0 ? d(eng) : k == 1 ? old() : k == 2 ? oldr() : oldp(); } catch (Src::Over&) { H::viol("u01-endless", H::cat(ename(e), ": no end after 1000 engine values")); return; }
    f128 q = (f128)s.script[s.drawn - 1] / RR; std::string w = H::cat("uniform_01<", sizeof(T) * 8, " bit real>", k ? " (wrapping) " : "", " from ", ename(e), " digits ", s.script, " k ", k);
    CHECK(v >= 0 && v < 1, "u01-range", w, " gave ", (long double)v);
    CHECK(fabs_((f128)v - q) <= 3 * ep * q, "u01-value", w, " gave ", (long double)v, " expected ", (long double)q, " after ", s.drawn, " engine values");
    for (u64 i = 0; i + 1 < s.drawn; ++i) CHECK((f128)s.script[i] / RR >= 1 - 3 * ep, "u01-draws", w, ": engine value ", s.script[i], " was thrown away");
    H::event("uniform_01 values"); H::seen(w);
  }
}
template<class T> bool mag_big(T a, T b) { return std::fabs(a) > 1 || std::fabs(b) > 1; }   // scaled down so that the width is representable
template<class B, class T> void ureal(const std::pair<B,B>& e) {
  H::Rng g = H::rng(2); Src s; s.mode = 1; H::Rng rr = H::rng(7); s.rng = &rr; s.limit = 1000; auto eng = make<B>(s, e.first, e.second); const u64 R = eng.R(); const f128 RR = R ? (f128)R : (f128)((u128)1 << 64);
  typedef std::numeric_limits<T> L; const f128 ep = L::epsilon(); const T M = L::max();
  std::vector<std::pair<T,T>> rs = { { 0, 1 }, { -1, 1 }, { 1, 1 + L::epsilon() }, { 1 - L::epsilon() / 2, 1 }, { -1, -1 + L::epsilon() }, { -M, M }, { -M / 2, M }, { -M, M / 2 }, { -M, 0 }, { 0, M }, { M / 2, M }, { -M, -M / 2 }, { std::nextafter(M, (T)0), M }, { -M / 2, M / 2 }, { -M / 2, std::nextafter(M / 2, M) }, { 0, L::denorm_min() }, { -L::denorm_min(), L::denorm_min() }, { 0, L::min() }, { -L::min(), 0 }, { (T)-3.5, (T)2.25 }, { (T)1e6, (T)(1e6 + 1) }, { 0, (T)10 }, { (T)-1e30, (T)1e30 }, { (T)0.1, (T)0.2 }, { (T)16777216, (T)16777218 } };
  for (int i = 0; i < 4; ++i) { T a = (T)std::ldexp(g.unit() - 0.5, (int)g.range(-60, 60)), b = (T)std::ldexp(g.unit() - 0.5, (int)g.range(-60, 60)); if (a > b) std::swap(a, b); if (a < b) rs.push_back({ a, b }); }
  auto scs = scripts<B>(R, g, (int)H::n(4, 60)); int c = 0;
  for (auto& r : rs) {
    br::uniform_real_distribution<T> d(r.first, r.second), o(0, 1); boost::uniform_real<T> old(r.first, r.second), o2;
    CHECK(d.min() == r.first && d.max() == r.second && d.a() == r.first && d.b() == r.second, "ureal-bounds", "uniform_real_distribution bounds");
    for (auto& sc : scs) {
      s.script = sc; if (s.script.size() > 20) s.script.resize(5); for (int i = 0; i < 3; ++i) s.script.push_back(0); s.pos = 0; s.drawn = 0; T v; int k = c++ & 3;
      try { v = k == 0 ? d(eng) : k == 1 ? o(eng, typename br::uniform_real_distribution<T>::param_type(r.first, r.second)) : k == 2 ? old(eng) : o2(eng, typename boost::uniform_real<T>::param_type(r.first, r.second)); } catch (Src::Over&) { H::viol("ureal-endless", H::cat(ename(e), ": no end after 1000 engine values for [", (long double)r.first, ",", (long double)r.second, ")")); return; }
      std::string w = H::cat("uniform_real<", sizeof(T) * 8, " bit> [", (long double)r.first, ",", (long double)r.second, ") from ", ename(e), " digits ", s.script, " k ", k);
      CHECK(v >= r.first && v < r.second, "ureal-range", w, " gave ", (long double)v);
      const f128 sc4 = mag_big(r.first, r.second) ? (f128)0.25 : (f128)1; f128 lo = sc4 * r.first, hi = sc4 * r.second, mag = std::max(fabs_(lo), fabs_(hi)), tol = 6 * ep * mag + 2 * (f128)L::denorm_min();
      auto val = [&](u64 dd) { return lo + (hi - lo) * ((f128)dd / RR); };
      CHECK(fabs_(sc4 * v - val(s.script[s.drawn - 1])) <= tol, "ureal-value", w, " gave ", (long double)v, " expected ", (long double)val(s.script[s.drawn - 1]));
      for (u64 i = 0; i + 1 < s.drawn; ++i) CHECK(val(s.script[i]) >= hi - tol, "ureal-draws", w, ": engine value ", s.script[i], " was thrown away");
      H::event("uniform_real values"); H::seen(w);
    }
  }
}
template<class B, class T> void all() {
  H::Rng g = H::rng(3); auto es = engines<B>(g, (int)H::n(3, 60)); int i = 0;
  for (auto& e : es) {
    canon<B,T,24>(e); canon<B,T,53>(e); canon<B,T,64>(e); canon<B,T,1000>(e); canon<B,T,1>(e); canon<B,T,8>(e); canon<B,T,17>(e); canon<B,T,32>(e); canon<B,T,52>(e); canon<B,T,10>(e); canon<B,T,48>(e); canon<B,T,63>(e);
    u01<B,T>(e); if (!H::quick() || ++i % 3 == 0 || mk<B>::real || e.first == std::numeric_limits<B>::min()) ureal<B,T>(e); H::event("engine ranges");
    if (i == 9) H::sample(ename(e));
  }
}
// equidistribution of the top bits when the digits are equally likely: all digit pairs of small engines
template<class B, class T> void grid() {
  if constexpr (!mk<B>::real) for (u64 R : { 2, 3, 5, 10, 13, 16, 27, 100 }) for (int pl = 0; pl < 2; ++pl) {
    const B mn = std::numeric_limits<B>::min(); std::pair<B,B> e(pl ? (B)(std::numeric_limits<B>::max() - (B)(R - 1)) : mn, pl ? std::numeric_limits<B>::max() : (B)(mn + (B)(R - 1)));
    Src s; s.mode = 1; s.limit = 100; auto eng = make<B>(s, e.first, e.second); int k = 1; u64 m = R; while (m < 1024) { m *= R; ++k; }
    std::vector<T> vs; s.script.assign(k, 0);
    for (u64 i = 0; i < m; ++i) { u64 t = i; for (int j = 0; j < k; ++j) { s.script[j] = t % R; t /= R; } s.pos = 0; s.drawn = 0; vs.push_back(br::generate_canonical<T, 10>(eng)); if (s.drawn != (u64)k) { H::viol("canonical-draws", H::cat(ename(e), ": ", s.drawn, " engine values for 10 bits, needs ", k)); return; } }
    std::sort(vs.begin(), vs.end()); bool ok = true; for (u64 i = 0; i < m; ++i) ok = ok && std::fabs((double)vs[i] - (double)i / m) < 1e-5 / m * 100; CHECK(ok, "canonical-grid", ename(e), ": the ", m, " digit strings do not give the values i/", m); H::eval(m); H::event("digit strings", m); H::seen(ename(e));
  }
}
typedef signed char sc_; 
#define R1(B, T) static H::Reg SCEN_CAT(reg_, __COUNTER__)("engine " #B " real " #T, [] { all<B, T>(); grid<B, T>(); });
#define RB(B) R1(B, float) R1(B, double) R1(B, ldouble)
RB(VERIF_B)
