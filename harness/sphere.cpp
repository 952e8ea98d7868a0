// P18: uniform_on_sphere.  VERIF_T = real type.
#include "h.hpp"
#include "src.hpp"
#include <deque>
#include <list>
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/math/distributions/beta.hpp>
#include <boost/math/special_functions/beta.hpp>
namespace br = boost::random; typedef long double ld; typedef long double ldouble; typedef VERIF_T T;
static double zchi(double x, double df) { double a = 2.0 / (9 * df); return (std::cbrt(x / df) - (1 - a)) / std::sqrt(a); }
// P(coordinate <= x) on the sphere in d dimensions, d >= 2
static double marginal(int d, double x) { if (x <= -1) return 0; if (x >= 1) return 1; if (d == 2) return 1 - std::acos(x) / 3.14159265358979323846; if (d == 3) return (x + 1) / 2; double a = (d - 1) / 2.0; return boost::math::ibeta(a, a, (x + 1) / 2); }
struct Cells {   // equiprobable cells of the marginal
  std::vector<double> edge; std::vector<double> p; std::vector<u64> c; u64 n = 0;
  explicit Cells(int d, int K) { for (int k = 1; k < K; ++k) { double lo = -1, hi = 1, t = (double)k / K; for (int i = 0; i < 70; ++i) { double m = (lo + hi) / 2; (marginal(d, m) < t ? lo : hi) = m; } edge.push_back(lo + 1e-9 * (k == K / 2 ? 0 : 1)); } double prev = 0; for (double e : edge) { double c_ = marginal(d, e); p.push_back(c_ - prev); prev = c_; } p.push_back(1 - prev); c.resize(p.size()); }
  void add(double x) { ++c[std::upper_bound(edge.begin(), edge.end(), x) - edge.begin()]; ++n; }
  void clear() { std::fill(c.begin(), c.end(), 0); n = 0; }
  void check(const std::string& key, const std::string& what) { double x = 0; for (std::size_t k = 0; k < p.size(); ++k) { double e = p[k] * n; x += (c[k] - e) * (c[k] - e) / e; } CHECK(zchi(x, p.size() - 1) < 7.5, key, what, ": chi-square ", x, " on ", (u64)p.size() - 1, " degrees of freedom over ", n, " values"); H::event("cells", p.size()); }
};
template<class C> bool unit(const C& v, int d, const std::string& what) {
  if ((int)v.size() != d) { H::viol("size", H::cat(what, ": ", (u64)v.size(), " coordinates")); return false; } if (d == 0) { H::eval(); return true; } ld s = 0; for (const auto& x : v) { if (!(x == x)) { H::viol("nan", H::cat(what, ": not a number")); return false; } s += (ld)x * (ld)x; }
  if (d == 1) { CHECK(s == 1, "length", what, ": value ", (ld)v.front()); return s == 1; }
  ld tol = (8 + 2 * std::sqrt((ld)d) + d / 4) * (ld)std::numeric_limits<T>::epsilon(); H::eval(); if (std::fabs(std::sqrt(s) - 1) > tol) { H::viol("length", H::cat(what, ": length ", std::sqrt(s))); return false; } return true;
}
template<class C, class E> void hostile(int d, E& eng, Src& s, const char* en) {
  br::uniform_on_sphere<T, C> D(d); std::set<std::string> distinct; CHECK(D.dim() == d, "dim", "dim()"); 
  for (int mode = 1; mode <= 7; ++mode) { s.mode = mode; s.limit = ~0ull; const std::string what = H::cat("dimension ", d, ", ", en, ", hostile mode ", mode); for (u64 k = 0; k < H::n(d > 100 ? 10 : 300, d > 100 ? 300 : 10000); ++k) { s.drawn = 0; const C& v = D(eng); if (!unit(v, d, what)) return; if (d) H::seen(H::cat(what, (ld)v.front())); } }
  H::event("points", 7 * H::n(d > 100 ? 10 : 300, d > 100 ? 300 : 10000)); H::event("engine values", s.drawn);
}
template<class B> void engines(const char* en, B lo, B hi) {
  H::scens().push_back({ H::cat("length ", en), [=] { H::Rng r = H::rng(); Src s; s.rng = &r; auto e = make<B>(s, lo, hi); for (int d : { 0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 32, 101, 1000 }) { hostile<std::vector<T>>(d, e, s, en); if (d < 8) { hostile<std::deque<T>>(d, e, s, en); hostile<std::list<T>>(d, e, s, en); } } H::sample(H::cat("dimensions 0 to 1000, ", en, " in 7 modes")); } });
}
template<class E> void direction(E& eng, int d, const std::string& en, u64 N) {
  const std::string what = H::cat("dimension ", d, ", ", en); br::uniform_on_sphere<T> D(d), other(5); typename br::uniform_on_sphere<T>::param_type P(d);
  if (d == 1) { u64 c = 0, run = 0; T last = 0; for (u64 k = 0; k < N; ++k) { auto v = D(eng); if (!unit(v, 1, what)) return; c += v[0] > 0; run += v[0] == last; last = v[0]; } double z = (c - N / 2.0) / std::sqrt(N / 4.0), z2 = (run - N / 2.0) / std::sqrt(N / 4.0); CHECK(std::fabs(z) < 7 && std::fabs(z2) < 7, "signs", what, ": ", c, " of ", N, " are positive"); H::eval(N); H::seen(what); return; }
  const int m = std::min(d, 6), K = 64; std::vector<Cells> co; Cells proto(d, K); for (int i = 0; i < m; ++i) co.push_back(proto); Cells proj = proto, serial = proto, last_ = proto, per = proto; std::vector<double> dir(d), prev; H::Rng g = H::rng(d); { double s = 0; for (double& x : dir) { x = std::sqrt(-2 * std::log(1 - g.unit())) * std::cos(6.283185307179586 * g.unit()); s += x * x; } for (double& x : dir) x /= std::sqrt(s); }
  std::vector<u64> orth(1u << m), ang(360); std::vector<double> cross(m * m), cross2(m * m);
  for (u64 k = 0; k < N; ++k) {
    std::vector<T> v = k % 8 == 7 ? other(eng, P) : D(eng); if (!unit(v, d, what)) return; unsigned o = 0; double pr = 0, se = 0; std::vector<double> x(v.begin(), v.end());
    for (int i = 0; i < m; ++i) { co[i].add(x[i]); if (x[i] > 0) o |= 1u << i; } ++orth[o]; for (int i = 0; i < d; ++i) pr += x[i] * dir[i]; proj.add(pr); last_.add(x[d - 1]); if (k % 8 == 7) per.add(x[0]);
    for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) { cross[i * m + j] += x[i] * x[j]; cross2[i * m + j] += x[i] * x[i] * x[j] * x[j]; }
    if (!prev.empty()) { for (int i = 0; i < d; ++i) se += x[i] * prev[i]; serial.add(se); } prev = x;
    if (d == 2) ++ang[std::min(359, (int)((std::atan2(x[1], x[0]) / 6.283185307179586 + 0.5) * 360))]; if (d == 3) ++ang[std::min(359, (int)((std::atan2(x[1], x[0]) / 6.283185307179586 + 0.5) * 360))];
  }
  for (int i = 0; i < m; ++i) co[i].check("coordinate", H::cat(what, ", coordinate ", i)); last_.check("coordinate", H::cat(what, ", last coordinate")); proj.check("projection", H::cat(what, ", projection on a fixed direction")); serial.check("serial", H::cat(what, ", inner product of successive points")); per.check("parameters per call", H::cat(what, ", parameters per call"));
  { double x = 0, e = (double)N / orth.size(); for (u64 c : orth) x += (c - e) * (c - e) / e; CHECK(zchi(x, orth.size() - 1) < 7.5, "orthants", what, ": chi-square ", x, " on ", (u64)orth.size(), " orthants"); }
  if (d <= 3) { double x = 0, e = (double)N / 360; for (u64 c : ang) x += (c - e) * (c - e) / e; CHECK(zchi(x, 359) < 7.5, "angle", what, ": chi-square ", x, " on 360 angles"); }
  const double m2 = 1.0 / (d * (d + 2.0)), m4 = 9.0 / (d * (d + 2.0) * (d + 4.0) * (d + 6.0)); for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) { double z = cross[i * m + j] / N / std::sqrt(m2 / N), z2 = (cross2[i * m + j] / N - m2) / std::sqrt((m4 - m2 * m2) / N); CHECK(std::fabs(z) < 7 && std::fabs(z2) < 8, "correlation", what, ": coordinates ", i, " and ", j, ", z ", z, " and ", z2); }
  H::eval(N); H::event("points", N); H::seen(what); H::sample(H::cat(what, ": ", N, " points, ", m + 3, " one-dimensional projections"));
}
template<class E, class Mk> void dir(const char* en, Mk mkeng) { for (int d : { 1, 2, 3, 4, 5, 6, 7, 8, 16, 100 }) H::scens().push_back({ H::cat("direction ", en, " ", d), [=] { auto e = mkeng(); direction(e, d, en, H::n(d > 50 ? 30000 : 1000000, d > 50 ? 200000 : 8000000)); } }); }
template<class B> struct Own { Src s; H::Rng r; typename mk<B>::type e; typedef B result_type; B lo, hi; Own(B l, B h) : r(H::rng().next()), lo(l), hi(h) {} B min() const { return lo; } B max() const { return hi; } B operator()() { s.mode = 1; s.rng = &r; e = make<B>(s, lo, hi); s.drawn = 0; return e(); } };
static bool reg = [] {
  engines<std::uint8_t>("engine of 8 bits", 0, 255); engines<std::int16_t>("engine of 1000 values", -500, 499); engines<std::uint32_t>("engine of 32 bits", 0, ~0u); engines<std::int32_t>("engine of 31 bits", 1, 2147483646); engines<u64>("engine of 64 bits", 0, ~0ull); engines<float>("real engine of 24 bits", 0, 1); engines<double>("real engine of 53 bits", 0, 1);
  dir<br::mt19937>("mt19937", [] { return br::mt19937((u32)H::rng().next()); }); dir<br::splitmix64>("splitmix64", [] { return br::splitmix64(H::rng().next()); }); dir<br::lagged_fibonacci607>("lagged_fibonacci607", [] { return br::lagged_fibonacci607((u32)H::rng().next()); }); dir<Own<std::int32_t>>("engine of 31 bits", [] { return Own<std::int32_t>(1, 2147483646); });
  return true; }();
