// P14 support, P15 densities, P16 probabilities, P21 engine values per result.
// VERIF_PROP, VERIF_T real type, VERIF_FAM 1 continuous, 2 continuous, 3 counting.
#if VERIF_PROP == 14 || VERIF_PROP == 21
#define VERIF_NO_CDF
#endif
#include "dists.hpp"
#include <algorithm>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/additive_combine.hpp>

// engines: name, the number of equally likely values (log2), a fresh instance
struct Feed { Src s; H::Rng r; Feed(u64 seed, int mode) : r(seed) { s.mode = mode; s.rng = &r; } Feed(const Feed&) = delete; };
template<class B> struct Eng : mk<B>::type {
  std::shared_ptr<Feed> f; double bits; const char* name;
  static Eng mke(const char* nm, double bits, B lo, B hi, u64 seed, int mode) { Eng e; e.f = std::make_shared<Feed>(seed, mode); e.s = &e.f->s; e.bits = bits; e.name = nm; if constexpr (!mk<B>::real) { e.lo = lo; e.hi = hi; } return e; }
};
template<class F> void scripted(int k, u64 seed, int mode, F&& f) {
  switch (k) {
    case 0: f(Eng<uint8_t>::mke("[0,255]", 8, 0, 255, seed, mode)); break;
    case 1: f(Eng<uint16_t>::mke("[0,65535]", 16, 0, 65535, seed, mode)); break;
    case 2: f(Eng<uint32_t>::mke("[1,2147483646]", 31, 1, 2147483646u, seed, mode)); break;
    case 3: f(Eng<uint32_t>::mke("[0,2^32)", 32, 0, ~0u, seed, mode)); break;
    case 4: f(Eng<uint64_t>::mke("[0,2^64)", 64, 0, ~0ull, seed, mode)); break;
    case 5: f(Eng<int32_t>::mke("[-2^31,2^31)", 32, INT32_MIN, INT32_MAX, seed, mode)); break;
    case 6: f(Eng<float>::mke("float", 24, 0, 1, seed, mode)); break;
    case 7: f(Eng<double>::mke("double", 53, 0, 1, seed, mode)); break;
    case 8: f(Eng<uint32_t>::mke("[0,2^24)", 24, 0, 0xffffff, seed, mode)); break;
    case 9: f(Eng<uint64_t>::mke("[5,2^61+3]", 61, 5, (1ull << 61) + 3, seed, mode)); break;
    case 10: f(Eng<uint32_t>::mke("[7,1000006]", std::log2(1000000.0), 7, 1000006, seed, mode)); break;
    case 11: f(Eng<int64_t>::mke("[-2^63,2^63)", 64, INT64_MIN, INT64_MAX, seed, mode)); break;
    case 12: f(Eng<uint8_t>::mke("[0,250]", std::log2(251.0), 0, 250, seed, mode)); break;
    case 13: f(Eng<uint16_t>::mke("[0,4095]", 12, 0, 4095, seed, mode)); break;
    case 14: f(Eng<ldouble>::mke("long double", 64, 0, 1, seed, mode)); break;
  }
}
const int NSCR = 15;
const char* const SCRN[NSCR] = { "u8", "u16", "u31", "u32", "u64", "i32", "float", "double", "u24", "u61", "u1000000", "i64", "u251", "u12", "ldouble" };
template<class E> struct NamedEng { E e; double bits; const char* name; };
inline double zchi(double x, double k) { return (std::pow(x / k, 1.0 / 3) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k)); }

template<class F> void family(F&& f) {
#if VERIF_FAM == 1
  cont1<VERIF_T>(f);
#elif VERIF_FAM == 2
  cont2<VERIF_T>(f);
#else
  counting<int, VERIF_T>(f); if constexpr (sizeof(VERIF_T) == 8) counting<int64_t, VERIF_T>(f); if constexpr (sizeof(VERIF_T) == 4) counting<int16_t, VERIF_T>(f);
#if VERIF_PROP != 16
  intweights<VERIF_T>(f); discrete<int, VERIF_T>(f); if constexpr (sizeof(VERIF_T) == 8) discrete<int64_t, VERIF_T>(f);
#endif
#endif
}
// parameter sets that are valid but extreme
template<class T, class F> void extreme(F&& f) {
  typedef std::numeric_limits<T> L; auto H_ = [](Info& i) { i.heavy = true; };
#if VERIF_FAM == 1
  { T a = 1, b = 1 + L::epsilon(); CASE(uniform_real, a, b, (ld)a, (ld)b) i.openhi = true; f(br::uniform_real_distribution<T>(a, b), i); }
  { T a = -L::max(), b = L::max(); CASE(uniform_real, a, b, (ld)a, (ld)b) i.openhi = true; f(br::uniform_real_distribution<T>(a, b), i); }
  { T a = 0, b = L::denorm_min(); CASE(uniform_real, a, b, (ld)a, (ld)b) i.openhi = true; f(br::uniform_real_distribution<T>(a, b), i); }
  { T l = L::max(); CASE(exponential, 0, INF, (ld)l) f(br::exponential_distribution<T>(l), i); }
  { T l = 1 / (L::max() / 1024); CASE(exponential, 0, INF, (ld)l) f(br::exponential_distribution<T>(l), i); }
  { T a = 0, b = L::min(); CASE(laplace, -INF, INF, (ld)a, (ld)b) f(br::laplace_distribution<T>(a, b), i); }
  for (T a : { (T)0.01, (T)1e-3, (T)1e4 }) { T b = 1; CASE(weibull, 0, INF, (ld)a, (ld)b) H_(i); f(br::weibull_distribution<T>(a, b), i); }
  { T a = 2, b = 2, c = 2; CASE(triangle, a, c, (ld)a, (ld)b, (ld)c) f(br::triangle_distribution<T>(a, b, c), i); }
  { T a = 1, b = 1, c = 1 + L::epsilon(); CASE(triangle, a, c, (ld)a, (ld)b, (ld)c) f(br::triangle_distribution<T>(a, b, c), i); }
  for (T s : { (T)1e-3, (T)1, (T)1e6 }) for (T q : { (T)0, (T)0.1, (T)0.3, (T)0.7, (T)0.9, (T)0.99, (T)1 }) { T a = -s / 3, c = s * 7 / 3, b = a + q * (c - a); if (b > c) b = c; CASE(triangle, a, c, (ld)a, (ld)b, (ld)c) f(br::triangle_distribution<T>(a, b, c), i); }
  for (int k = 0; k < 6; ++k) { std::vector<T> x = { (T)-0.1, (T)(0.3 + k), (T)(0.7 + 3 * k), (T)(1.1 + 1e3 * k) }, w = { (T)0.1, (T)(k % 3 ? 0 : 5), (T)(k % 2) }, v = { (T)0.1, (T)(k % 3 ? 0 : 5), (T)(k % 2), (T)(k % 4) }; Info i; i.lo = x.front(); i.hi = x.back(); i.name = H::cat("piecewise_constant<", tname<T>(), ">(x", k, ")"); i.openhi = true; f(br::piecewise_constant_distribution<T, T>(x.begin(), x.end(), w.begin()), i); i.openhi = false; i.name = H::cat("piecewise_linear<", tname<T>(), ">(x", k, ")"); f(br::piecewise_linear_distribution<T>(x.begin(), x.end(), v.begin()), i); }
#elif VERIF_FAM == 2
  { T a = 3, b = 0; CASE(normal, -INF, INF, (ld)a, (ld)b) f(br::normal_distribution<T>(a, b), i); }
  { T a = 0, b = L::max() / 64; CASE(normal, -INF, INF, (ld)a, (ld)b) f(br::normal_distribution<T>(a, b), i); }
  { T a = 0, b = L::min(); CASE(normal, -INF, INF, (ld)a, (ld)b) f(br::normal_distribution<T>(a, b), i); }
  for (T b : { (T)10, (T)1e-3, (T)0 }) { T a = 0; CASE(lognormal, 0, INF, (ld)a, (ld)b) i.heavy = b > 9 && L::max_exponent <= 128; /* a normal value above 8.87, times 10 */ f(br::lognormal_distribution<T>(a, b), i); }
  for (T a : { (T)0.01, (T)1e-3, (T)1e-6, (T)1e6, (T)(1 - L::epsilon()), (T)(1 + L::epsilon()), (T)1.0001 }) { T b = 1; CASE(gamma, 0, INF, (ld)a, (ld)b) f(br::gamma_distribution<T>(a, b), i); }
  for (T a : { (T)0.01, (T)1e5, (T)2 + 4 * L::epsilon() }) { CASE(chi_squared, 0, INF, (ld)a) f(br::chi_squared_distribution<T>(a), i); }
  for (T a : { (T)0.05, (T)1e6 }) { CASE(student_t, -INF, INF, (ld)a) H_(i); f(br::student_t_distribution<T>(a), i); }
  for (T a : { (T)0.05, (T)1e4 }) { T b = a; CASE(fisher_f, 0, INF, (ld)a, (ld)b) H_(i); f(br::fisher_f_distribution<T>(a, b), i); }
  for (T a : { (T)0.001, (T)0.05, (T)1e4 }) { T b = a; CASE(beta, 0, 1, (ld)a, (ld)b) f(br::beta_distribution<T>(a, b), i); }
  for (T a : { (T)0.01, (T)1e3, (T)(1 + L::epsilon()) }) { T b = a == (T)0.01 ? (T)0.01 : (T)1e3; CASE(non_central_chi_squared, 0, INF, (ld)a, (ld)b) f(br::non_central_chi_squared_distribution<T>(a, b), i); }
  for (int k = 0; k < 3; ++k) { std::vector<T> p = { (T)1, (T)(k == 0 ? 0 : 1e-6), (T)(k == 2 ? 1e6 : 2) }, r = { (T)1e-10, (T)1, (T)1e10 }; Info i; i.name = H::cat("hyperexponential<", tname<T>(), ">(x", k, ")"); i.lo = 0; i.hi = INF; i.openhi = false; f(br::hyperexponential_distribution<T>(p.begin(), p.end(), r.begin(), r.end()), i); }
#else
  typedef int I; const ld M = std::numeric_limits<int>::max();
  for (double p : { 1e-10, 1e-9, 1e-16, 1e-30 }) { T a = (T)p; CASE(geometric, 0, M, (ld)a) i.one = 1; f(br::geometric_distribution<int, T>(a), i); }
  { T a = 1 - L::epsilon() / 2; CASE(geometric, 0, M, (ld)a) i.one = 1; f(br::geometric_distribution<int, T>(a), i); }
  { T a = (T)1e-8; typedef long long LL; CASE(geometric, 0, std::numeric_limits<LL>::max(), (ld)a) i.name += "ll"; i.one = 1; f(br::geometric_distribution<long long, T>(a), i); }
  for (double p : { 1e-8, 1e-9, 1e-12 }) { T a = (T)p; int k = 1; CASE(negative_binomial, 0, M, (ld)k, (ld)a) f(br::negative_binomial_distribution<int, T>(k, a), i); }
  { T a = 1 - L::epsilon() / 2; int k = 1000000; CASE(negative_binomial, 0, M, (ld)k, (ld)a) f(br::negative_binomial_distribution<int, T>(k, a), i); }
  for (double p : { 1e-30, 1e6, 1e9, 2.1e9, 2.147483647e9 }) { T a = (T)p; CASE(poisson, 0, M, (ld)a) f(br::poisson_distribution<int, T>(a), i); }
  for (double p : { 100.0, 126.0 }) { T a = (T)p; typedef signed char SC; CASE(poisson, 0, 32767, (ld)a) i.name += "i16"; f(br::poisson_distribution<int16_t, T>(a), i); }
  for (double p : { 0.5, 1e-9, 1e-8, 1 - 1e-7, 4e-9, 0.999 }) for (int t : { INT32_MAX, INT32_MAX - 1, 1000000000 }) { T a = (T)p; CASE(binomial, 0, t, (ld)t, (ld)a) f(br::binomial_distribution<int, T>(t, a), i); }
  for (int n : { 1, 2, 255, 256, 257, 1000 }) { std::vector<T> w(n); for (int k = 0; k < n; ++k) w[k] = (T)(k % 7 == 3 ? 0 : std::pow(10.0, k % 11 - 5)); Info i; i.name = H::cat("discrete<", tname<T>(), ">(", n, ")"); i.lo = 0; i.hi = n - 1; i.openhi = false; f(br::discrete_distribution<int, T>(w.begin(), w.end()), i); }
#endif
}
template<class D> ld val(const D& d) { return (ld)d; }

#if VERIF_PROP == 14
template<class D, class E> void support(D d, const Info& i, E& eng, int mode) {
  typedef typename D::result_type R; const u64 n = H::n(600, 8000); ld mn = val(d.min()), mx = val(d.max());
  CHECK(!(mn > i.lo) && !(mx < i.hi) , i.name + "/bounds", "reports [", mn, ",", mx, "] for a support of [", i.lo, ",", i.hi, "]");
  CHECK((mn == i.lo || i.lo == -INF) && (mx == i.hi || i.hi == INF || std::isinf(mx)), i.name + "/bounds", "reports [", mn, ",", mx, "] for a support of [", i.lo, ",", i.hi, "]");
  ld first = 0; 
  for (u64 k = 0; k < n; ++k) {
    eng.s->drawn = 0; if (k % 50 == 0) d.reset(); R r = d(eng); ld v = val(r);
    if (v != v) { H::viol(i.name + "/nan", H::cat(i.name, " gave NaN from engine ", eng.name, " hostile mode ", mode)); break; }
    if (!(v >= i.lo && (i.openhi ? v < i.hi : v <= i.hi)) || v < mn || v > mx) { H::viol(i.name + "/support", H::cat(i.name, " gave ", v, " outside [", i.lo, ",", i.hi, i.openhi ? ")" : "]", " from engine ", eng.name, " hostile mode ", mode)); break; }
    if (std::isinf(v) && !i.heavy) { H::viol(i.name + "/infinite", H::cat(i.name, " gave ", v, " from engine ", eng.name, " hostile mode ", mode)); break; }
    if (k == 0) first = v; if (v != first) H::seen(H::cat(i.name, eng.name, mode, k));
  }
  H::eval(n); H::event("values"); H::event("hostile engine values", eng.s->drawn);
}
#define SCRIPTED(k) static H::Reg SCEN_CAT(reg_, __COUNTER__)(H::cat("engine ", SCRN[k]), [] { for (int mode = 1; mode <= 7; ++mode) { auto go = [&](auto d, const Info& i) { scripted(k, H::mix(H::st().seed, H::hash(i.name) + mode), mode, [&](auto eng) { support(d, i, eng, mode); }); }; family(go); extreme<VERIF_T>(go); } H::sample("every distribution driven by extremes, near extremes, runs and lone extremes of the engine"); });
#elif VERIF_PROP == 21
// engine values allowed per result, in units of what one full-width real needs
inline double factor(const std::string& n) {
  static const std::pair<const char*, double> t[] = { {"geometric", 0.3}, {"bernoulli", 0.3}, {"cauchy", 0.3}, {"extreme", 0.4}, {"uniform_smallint", 0.3}, {"weibull", 0.3}, {"triangle", 0.3}, {"discrete_int", 1.6}, {"piecewise_constant_int", 2}, {"discrete", 0.8}, {"uniform_real", 0.8}, {"poisson", 0.9}, {"binomial", 1}, {"uniform_int", 1.1}, {"piecewise_constant", 1.2}, {"piecewise_linear", 1.6}, {"exponential", 1.6}, {"lognormal", 1.6}, {"normal", 1.6}, {"laplace", 2}, {"negative", 2.1}, {"hyper", 2.4}, {"chi", 2.6}, {"gamma", 2.6}, {"non_central", 4}, {"student", 4}, {"fisher", 5}, {"beta", 5} };
  for (auto& p : t) if (n.compare(0, std::strlen(p.first), p.first) == 0) return p.second; return 1;
}
template<class D, class E> void budget(D d, const Info& i, E& eng) {
  const u64 n = H::n(4000, 40000); eng.s->limit = 100000; u64 tot = 0, worst = 0; D dd(d);
  // bits of one engine value that the bit-collecting algorithms can use, and how often they reject one
  double m = std::floor(eng.bits + 1e-9), acc = std::exp2(eng.bits - m); (void)acc; double u = std::ceil(72 / m) * 2;
  try { for (u64 k = 0; k < n; ++k) { eng.s->drawn = 0; d(eng); u64 c = eng.s->drawn; tot += c; worst = std::max(worst, c); if (i.one && c != (u64)i.one) { H::viol(i.name + "/one", H::cat(i.name, " used ", c, " engine values for one result, engine ", eng.name)); break; } } }
  catch (Src::Over&) { H::viol(i.name + "/endless", H::cat(i.name, " used more than 100000 engine values for one result, engine ", eng.name)); return; }
  double avg = (double)tot / n; if (std::getenv("VERIF_SHOW")) std::printf("%-40s %-16s avg %.3f worst %llu u %.1f ratio %.3f\n", i.name.c_str(), eng.name, avg, (unsigned long long)worst, u, avg / u);
  CHECK(avg <= factor(i.name) * u, i.name + "/average", i.name, " used ", avg, " engine values per result, engine ", eng.name);
  CHECK(worst <= 50 * u, i.name + "/worst", i.name, " used ", worst, " engine values for one result, engine ", eng.name);
  H::eval(n); H::event("results", n); H::event("engine values", tot); H::seen(H::cat(i.name, eng.name));
}
#define SCRIPTED(k) static H::Reg SCEN_CAT(reg_, __COUNTER__)(H::cat("engine ", SCRN[k]), [] { auto go = [&](auto d, const Info& i) { scripted(k, H::mix(H::st().seed, H::hash(i.name)), 1, [&](auto eng) { budget(d, i, eng); }); }; family(go); extreme<VERIF_T>(go); });
#else
// ---- distribution tests.  Edges at quantiles of the reference distribution.
struct Bins { std::vector<ld> edge; std::vector<double> p, slack; bool ok; };   // slack: probability of values within one unit of the last place of an edge, which rounding may move
inline double from_ord(i64 k) { double d; if (k >= 0) std::memcpy(&d, &k, 8); else { k = -k; std::memcpy(&d, &k, 8); d = -d; } return d; }
inline double quant(const Info& i, double p, bool upper) {   // smallest x with cdf >= p (or sf <= p)
  double L = std::max((double)i.lo, -1e300), R = std::min((double)i.hi, 1e300); auto ord = [](double d) { i64 k; double a = std::fabs(d); std::memcpy(&k, &a, 8); return d < 0 ? -k : k; };
  i64 a = ord(L), b = ord(R);
  while (b - a > 1) { i64 m = a + (b - a) / 2; double x = from_ord(m); bool hi = upper ? i.sf(x) <= p : i.cdf(x) >= p; (hi ? b : a) = m; }
  return from_ord(b);
}
template<class T> Bins bins(const Info& i, int K, bool tails) {
  std::vector<ld> e; auto add = [&](double x) { T t = (T)x; if ((ld)t > i.lo && (ld)t < i.hi) e.push_back((ld)t); };
  for (int k = 1; k < K; ++k) { double p = (double)k / K; add(p < 0.5 || !i.sf ? quant(i, p, false) : quant(i, 1 - p, true)); }
  if (tails) for (double t : { 1e-3, 1e-4, 3e-5 }) { add(quant(i, t, false)); add(i.sf ? quant(i, t, true) : quant(i, 1 - t, false)); }
  std::sort(e.begin(), e.end()); e.erase(std::unique(e.begin(), e.end()), e.end()); Bins b; b.edge = e; double prev = 0, prevs = 1; 
  for (std::size_t k = 0; k <= e.size(); ++k) { double c = k < e.size() ? i.cdf((double)e[k]) : 1, s = k < e.size() ? (i.sf ? i.sf((double)e[k]) : 1 - c) : 0; b.p.push_back(c < 0.5 ? c - prev : prevs - s); prev = c; prevs = s; }
  { std::vector<double> at; for (ld x : e) { T t = (T)x; double u = (double)std::nextafter(t, std::numeric_limits<T>::infinity()), l = (double)std::nextafter(t, -std::numeric_limits<T>::infinity()); at.push_back(std::max(0.0, i.sf && i.cdf(l) > 0.5 ? i.sf(l) - i.sf(u) : i.cdf(u) - i.cdf(l))); } for (std::size_t k = 0; k <= e.size(); ++k) b.slack.push_back((k ? at[k - 1] : 0) + (k < e.size() ? at[k] : 0)); }
  b.ok = true; return b;
}
struct Tally { std::vector<double> c; u64 n = 0; };
// bias allowed because an engine of few values cannot do better
inline double grain(double bits) { return bits >= 23 ? 0 : 6 / std::exp2(bits); }
template<class D, class E, class T> void density(D d, const Info& i, E& eng, double ebits, const std::string& en, u64 n) {
  typedef T R; static std::map<std::string, Bins> cache; std::string ck = H::cat(i.name, ebits < 15 ? 0 : ebits < 23 ? 1 : 2); const int K = ebits < 15 ? 16 : ebits < 23 ? 32 : 400;
  if (!cache.count(ck)) cache[ck] = bins<R>(i, K, ebits >= 23); const Bins& b = cache[ck];
  double s = 0; for (double p : b.p) { s += p; if (p < -1e-9 || p != p) { H::viol(i.name + "/model", "reference distribution function is not monotone"); return; } }
  std::vector<double> c(b.p.size()); const int K2 = ebits < 15 ? 4 : 8; std::vector<double> pr(K2 * K2), mid(K2); std::vector<double> cum; double a = 0; for (double p : b.p) { a += p; cum.push_back(a); }
  std::vector<int> coarse(b.p.size()); std::vector<double> cp(K2); for (std::size_t k = 0; k < b.p.size(); ++k) { coarse[k] = std::min(K2 - 1, (int)((cum[k] - b.p[k] / 2) * K2)); cp[coarse[k]] += b.p[k]; }
  int last = -1, last2 = -1; std::vector<double> pr2(K2 * K2);
  for (u64 k = 0; k < n; ++k) {
    ld v = val(d(eng)); if (!(v == v)) { H::viol(i.name + "/nan", H::cat(i.name, " gave NaN, engine ", en)); return; }
    std::size_t j = std::upper_bound(b.edge.begin(), b.edge.end(), v) - b.edge.begin(); c[j]++; int q = coarse[j]; if (last >= 0) pr[last * K2 + q]++; if (last2 >= 0) pr2[last2 * K2 + q]++; last2 = last; last = q;
  }
  const double g = grain(ebits); double D_ = 0, cc = 0, cpx = 0; for (std::size_t k = 0; k + 1 < c.size(); ++k) { cc += c[k]; cpx += b.p[k]; D_ = std::max(D_, std::fabs(cc / n - cpx)); }
  CHECK((D_ - g) * std::sqrt((double)n) < 3.6, i.name + "/ks", i.name, " from engine ", en, ": the empirical distribution is off by ", D_, " over ", n, " values");
  if (g == 0 || ebits >= 15) { double x = 0, df = -1, ee = 0, oo = 0, ss = 0; for (std::size_t k = 0; k < c.size(); ++k) { ee += b.p[k] * n; oo += c[k]; ss += b.slack[k] * n; if (ee < 5 && k + 1 < c.size()) continue; if (ee > 0) { double sl = ee * std::exp2(-ebits) * K * 4 + ss; ss = 0; double df_ = std::max(0.0, std::fabs(oo - ee) - sl - 1e-6 * ee); x += df_ * df_ / ee; df++; } else if (oo > 0) x += 1e6; ee = oo = 0; }
    if (df > 0) CHECK(zchi(x, df) < 7.5, i.name + "/chi2", i.name, " from engine ", en, ": chi-square ", x, " on ", df, " degrees of freedom, z ", zchi(x, df), " over ", n, " values"); }
  if (g == 0) for (auto* P : { &pr, &pr2 }) { double x = 0; for (int p = 0; p < K2; ++p) for (int q = 0; q < K2; ++q) { double ex = cp[p] * cp[q] * n; if (ex > 0) x += ((*P)[p * K2 + q] - ex) * ((*P)[p * K2 + q] - ex) / ex; } CHECK(zchi(x, K2 * K2 - 1) < 7.5, i.name + "/serial", i.name, " from engine ", en, ": successive values are dependent, chi-square ", x); }
  H::eval(n); H::event("values", n); H::event("tests", 3); H::seen(H::cat(i.name, en)); H::sample(H::cat(i.name, " from ", en, ": ", n, " values in ", c.size(), " cells, largest deviation of the distribution function ", D_));
}
template<class D, class E> void probs(D d, const Info& i, E& eng, double ebits, const std::string& en, u64 n) {
  std::map<i64, double> c; int last = -1; double q4[4] = {0}, pr[16] = {0}; std::vector<i64> vals(n);
  for (u64 k = 0; k < n; ++k) { vals[k] = (i64)d(eng); c[vals[k]]++; }
  i64 lo = c.begin()->first, hi = c.rbegin()->first; const double g = grain(ebits);
  // cells: merged neighbours with an expected count of at least 12
  double x = 0, df = -1, D_ = 0, prev = 0, cum = 0, ee = 0, oo = 0; auto it = c.begin(); i64 stepmax = hi - lo; u64 cells = 0; std::vector<std::pair<i64,double>> cuts;
  i64 step = std::max<i64>(1, stepmax / 4000);
  for (i64 k = lo; ; k += step) {
    i64 up = std::min(hi, k + step - 1); double o = 0; while (it != c.end() && it->first <= up) { o += it->second; ++it; }
    double cd = i.cdf((double)up), sfv = i.sf ? i.sf((double)up) : 1 - cd; double p = cd - prev; prev = cd; cum += o; D_ = std::max(D_, std::fabs(cum / n - cd)); cuts.push_back({ up, cd });
    bool end = up >= hi; ee += p * n; oo += o; if (end) ee += sfv * n;
    if (ee >= 12 || end) { if (ee > 0) { double tol = ee * (sizeof(VERIF_T) == 4 ? 2e-4 : 1e-6) + n * (ebits < 23 ? 0 : 2 * std::exp2(-ebits) * 1); double dd = std::max(0.0, std::fabs(oo - ee) - tol); double den = std::max(ee, 1e-3); x += dd * dd / den; ++df; } else if (oo > 0) x += 1e6; ee = oo = 0; ++cells; }
    if (end) break;
  }
  CHECK((D_ - g) * std::sqrt((double)n) < 3.6, i.name + "/ks", i.name, " from engine ", en, ": the empirical distribution is off by ", D_, " over ", n, " values");
  if (g == 0 && df > 0) CHECK(zchi(x, df) < 7.5, i.name + "/chi2", i.name, " from engine ", en, ": chi-square ", x, " on ", df, " degrees of freedom over ", n, " values");
  if (g == 0 && df <= 0) CHECK(x < 60, i.name + "/chi2", i.name, " from engine ", en, ": counts ", c.begin()->second, " expected cdf ", i.cdf((double)hi));
  // dependence of successive values: median split
  if (g == 0) { i64 med = lo; double bestd = 1; for (auto& t : cuts) if (std::fabs(t.second - 0.5) < bestd) { bestd = std::fabs(t.second - 0.5); med = t.first; } double p = i.cdf((double)med); if (p > 0.01 && p < 0.99) { double c11 = 0, c1 = 0; for (u64 k = 0; k + 1 < n; ++k) { bool a = vals[k] <= med, b = vals[k + 1] <= med; c11 += a && b; c1 += a; } double ex = p * p * (n - 1), z = (c11 - ex - 2 * p * (c1 - p * (n - 1))) / std::sqrt((n - 1) * p * p * (1 - p) * (1 - p)); CHECK(std::fabs(z) < 7.5, i.name + "/serial", i.name, " from engine ", en, ": successive values are dependent, z ", z); } }
  H::eval(n); H::event("values", n); H::event("cells", cells); H::seen(H::cat(i.name, en)); H::sample(H::cat(i.name, " from ", en, ": ", n, " values in ", cells, " cells, largest deviation of the distribution function ", D_));
}
#if VERIF_PROP == 15
#define TEST(d, i, e, b, n, c) density<decltype(d), std::remove_reference_t<decltype(e)>, VERIF_T>(d, i, e, b, n, c)
const u64 NQ = 60000, NT = 1000000;
#else
#define TEST(d, i, e, b, n, c) probs(d, i, e, b, n, c)
const u64 NQ = 60000, NT = 1000000;
#endif
#define SCRIPTED(k) static H::Reg SCEN_CAT(reg_, __COUNTER__)(H::cat("engine ", SCRN[k]), [] { auto go = [&](auto d, const Info& i) { scripted(k, H::mix(H::st().seed, H::hash(i.name)), 1, [&](auto eng) { TEST(d, i, eng, eng.bits, eng.name, H::n(NQ, NT)); }); }; family(go); });
#define REAL(E, bits) static H::Reg SCEN_CAT(reg_, __COUNTER__)("engine " #E, [] { br::E eng((u32)H::rng().next()); auto go = [&](auto d, const Info& i) { TEST(d, i, eng, bits, #E, H::n(NQ * 3, NT * 3)); }; family(go); });
REAL(mt19937, 32) REAL(mt19937_64, 64) REAL(minstd_rand, 31) REAL(lagged_fibonacci1279, 48) REAL(ranlux48, 48) REAL(splitmix64, 64) REAL(mixmax, 61) REAL(ecuyer1988, 31) REAL(ranlux3_01, 24)
// many more values from a fast ideal engine: errors too small for the tests above
struct R64 { typedef u64 result_type; H::Rng r; static constexpr u64 (min)() { return 0; } static constexpr u64 (max)() { return ~0ull; } u64 operator()() { return r.next(); } };
const u64 ND = sizeof(VERIF_T) == 8 ? 4000000 : 1000000;
#define DEEP(k) static H::Reg SCEN_CAT(reg_, __COUNTER__)("deep " #k, [] { int at = 0; auto go = [&](auto d, const Info& i) { if (at++ % 12 != k) return; R64 e = { H::Rng(H::mix(H::st().seed, H::hash(i.name) + 99)) }; TEST(d, i, e, 64, "deep", H::n(ND, ND * 25)); }; family(go); });
DEEP(0) DEEP(1) DEEP(2) DEEP(3) DEEP(4) DEEP(5) DEEP(6) DEEP(7) DEEP(8) DEEP(9) DEEP(10) DEEP(11)
#if VERIF_PROP == 15 && VERIF_FAM <= 2
// the table driven distributions in narrow cells of equal width
template<class E> struct Bits { typedef E result_type; H::Rng r; static constexpr E (min)() { return 0; } static constexpr E (max)() { return (E)~(E)0; } E operator()() { return (E)r.next(); } };
template<class E> void fine(const char* n, u64 N) {
  typedef VERIF_T T; Bits<E> e = { H::rng(4) }; const int K = 4096; std::vector<double> c(K + 1), p(K + 1);
#if VERIF_FAM == 2
  br::normal_distribution<T> d; const double lo = -8, w = 16.0 / K; auto sf = [](double x) { return 0.5 * std::erfc(x / std::sqrt(2.0)); };
#else
  br::exponential_distribution<T> d; const double lo = 0, w = 20.0 / K; auto sf = [](double x) { return std::exp(-x); };
#endif
  for (int k = 0; k < K; ++k) { double a = lo + k * w, b = a + w; p[k] = lo < 0 && b <= 0 ? sf(-b) - sf(-a) : sf(a) - sf(b); } p[K] = 2 * sf(lo + K * w);
  for (u64 k = 0; k < N; ++k) { double x = (double)d(e), y = (x - lo) / w; c[y >= 0 && y < K ? (int)y : K]++; }
  double x = 0, df = -1, ee = 0, oo = 0; for (int k = 0; k <= K; ++k) { ee += p[k] * N; oo += c[k]; if (ee < 25 && k < K) continue; double dd = std::max(0.0, std::fabs(oo - ee) - ee * (sizeof(T) == 4 ? 3e-4 : 1e-7)); x += dd * dd / std::max(ee, 1.0); df++; ee = oo = 0; }
  CHECK(zchi(x, df) < 7.5, H::cat("fine/", n), "chi-square ", x, " on ", df, " narrow cells, z ", zchi(x, df), " over ", N, " values");
  double tx = 0; for (double t : { 2.0, 3.0, 3.3, 3.5, 3.7, 4.0, 4.5, 5.0, 6.0, 7.0, 7.5, 8.0, 9.0, 10.0, 12.0, 14.0 }) for (int side = 0; side < 2; ++side) { if (lo < 0 ? t > 5 : side) continue; int k0 = (int)std::ceil((t - lo) / w); double o = side ? 0 : c[K], q = side ? 0 : sf(lo + k0 * w) ; if (side) { int k1 = (int)std::floor((-t - lo) / w); for (int k = 0; k < k1; ++k) o += c[k]; q = sf(-(lo + k1 * w)); } else for (int k = k0; k < K; ++k) o += c[k]; double z = (o - q * N) / std::sqrt(q * N + 1); tx = std::max(tx, std::fabs(z)); CHECK(std::fabs(z) < 7 + 3e-4 * std::sqrt(q * N), H::cat("tail/", n), side ? "lower" : "upper", " tail beyond ", t, ": ", o, " of ", N, " values, expected ", q * N, ", z ", z); }
  H::eval(N); H::event("values", N); H::event("narrow cells", (u64)df); for (int k = 0; k <= K; ++k) if (c[k] > 0) H::seen(H::mix(k, H::hash(n))); H::sample(H::cat(n, ": ", N, " values, z of the narrow cells ", zchi(x, df), ", worst tail ", tx));
}
const u64 NF = sizeof(VERIF_T) == 16 ? 10000000 : 60000000;
SCEN("fine 64") { fine<u64>("64 bit engine", H::n(NF, NF * 20)); } SCEN("fine 32") { fine<u32>("32 bit engine", H::n(NF, NF * 20)); } SCEN("fine 16") { fine<unsigned short>("16 bit engine", H::n(NF / 3, NF * 5)); }
#endif
#endif
SCRIPTED(0) SCRIPTED(1) SCRIPTED(2) SCRIPTED(3) SCRIPTED(4) SCRIPTED(5) SCRIPTED(6) SCRIPTED(7) SCRIPTED(8) SCRIPTED(9) SCRIPTED(10) SCRIPTED(11) SCRIPTED(12) SCRIPTED(13) SCRIPTED(14)
