// Distributions under test: parameter sets, supports, distribution functions.
#ifndef VERIF_DISTS_HPP
#define VERIF_DISTS_HPP
#include "h.hpp"
#include "src.hpp"
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/cauchy_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/extreme_value_distribution.hpp>
#include <boost/random/fisher_f_distribution.hpp>
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/negative_binomial_distribution.hpp>
#include <boost/random/non_central_chi_squared_distribution.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/student_t_distribution.hpp>
#include <boost/random/triangle_distribution.hpp>
#include <boost/random/weibull_distribution.hpp>
#ifndef VERIF_NO_CDF
#include <boost/math/distributions/gamma.hpp>
#include <boost/math/distributions/beta.hpp>
#include <boost/math/distributions/normal.hpp>
#include <boost/math/distributions/students_t.hpp>
#include <boost/math/distributions/fisher_f.hpp>
#include <boost/math/distributions/chi_squared.hpp>
#include <boost/math/distributions/non_central_chi_squared.hpp>
#include <boost/math/distributions/binomial.hpp>
#include <boost/math/distributions/poisson.hpp>
#include <boost/math/distributions/negative_binomial.hpp>
#endif
namespace br = boost::random;
typedef long double ld; typedef long double ldouble;
struct Info {
  std::string name; ld lo, hi; bool openhi; std::vector<ld> args;
  std::function<double(double)> cdf;      // continuous: P(X <= x); counting: P(X <= k)
  std::function<double(double)> sf;       // upper tail, where it is better known
  int one = 0;                            // engine values per result, when fixed
  bool heavy = false;                     // may legitimately overflow to infinity
};
const ld INF = std::numeric_limits<ld>::infinity();
template<class D> struct Acc;
#define ACC(D, ...) template<class... A> struct Acc<D<A...>> { template<class O> static std::vector<ld> get(const O& o) { return { __VA_ARGS__ }; } };
ACC(br::uniform_real_distribution, (ld)o.a(), (ld)o.b()) ACC(br::exponential_distribution, (ld)o.lambda()) ACC(br::laplace_distribution, (ld)o.mean(), (ld)o.beta())
ACC(br::extreme_value_distribution, (ld)o.a(), (ld)o.b()) ACC(br::weibull_distribution, (ld)o.a(), (ld)o.b()) ACC(br::cauchy_distribution, (ld)o.median(), (ld)o.sigma())
ACC(br::triangle_distribution, (ld)o.a(), (ld)o.b(), (ld)o.c()) ACC(br::normal_distribution, (ld)o.mean(), (ld)o.sigma()) ACC(br::lognormal_distribution, (ld)o.m(), (ld)o.s())
ACC(br::gamma_distribution, (ld)o.alpha(), (ld)o.beta()) ACC(br::chi_squared_distribution, (ld)o.n()) ACC(br::student_t_distribution, (ld)o.n()) ACC(br::fisher_f_distribution, (ld)o.m(), (ld)o.n())
ACC(br::beta_distribution, (ld)o.alpha(), (ld)o.beta()) ACC(br::non_central_chi_squared_distribution, (ld)o.k(), (ld)o.lambda())
ACC(br::bernoulli_distribution, (ld)o.p()) ACC(br::binomial_distribution, (ld)o.t(), (ld)o.p()) ACC(br::geometric_distribution, (ld)o.p()) ACC(br::negative_binomial_distribution, (ld)o.k(), (ld)o.p()) ACC(br::poisson_distribution, (ld)o.mean())
ACC(br::uniform_int_distribution, (ld)o.a(), (ld)o.b()) ACC(br::uniform_smallint, (ld)o.a(), (ld)o.b())
#define ACCV(D, ...) template<class... A> struct Acc<D<A...>> { template<class O> static std::vector<ld> get(const O& o) { std::vector<ld> r; __VA_ARGS__ return r; } };
#define PUSH(e) for (auto x : e) r.push_back((ld)x);
ACCV(br::discrete_distribution, PUSH(o.probabilities())) ACCV(br::piecewise_constant_distribution, PUSH(o.intervals()) PUSH(o.densities())) ACCV(br::piecewise_linear_distribution, PUSH(o.intervals()) PUSH(o.densities())) ACCV(br::hyperexponential_distribution, PUSH(o.probabilities()) PUSH(o.rates()))

#ifndef VERIF_NO_CDF
namespace bm = boost::math;
typedef bm::policies::policy<bm::policies::overflow_error<bm::policies::ignore_error>, bm::policies::underflow_error<bm::policies::ignore_error>, bm::policies::promote_double<false>, bm::policies::discrete_quantile<bm::policies::real>> Pol;
template<class D> std::function<double(double)> mcdf(const D& d, double lo) { return [=](double x) { return x <= lo ? 0.0 : std::isinf(x) ? 1.0 : (double)bm::cdf(d, x); }; }
template<class D> std::function<double(double)> msf(const D& d, double lo) { return [=](double x) { return x <= lo ? 1.0 : std::isinf(x) ? 0.0 : (double)bm::cdf(bm::complement(d, x)); }; }
#define MCDF(d, lo) i.cdf = mcdf(d, lo), i.sf = msf(d, lo)
#else
#define MCDF(d, lo)
#endif
#define CDF(...) i.cdf = [=](double x) -> double { __VA_ARGS__ }
#define SF(...) i.sf = [=](double x) -> double { __VA_ARGS__ }
template<class T> std::string tname() { return std::is_same<T, float>::value ? "float" : std::is_same<T, double>::value ? "double" : std::is_same<T, ldouble>::value ? "ldouble" : std::is_same<T, bool>::value ? "bool" : H::cat(std::is_signed<T>::value ? "i" : "u", sizeof(T) * 8); }
inline std::string aname(const std::vector<ld>& a) { std::string r; for (ld x : a) { std::ostringstream o; o.precision(6); o << x; r += (r.empty() ? "" : ",") + o.str(); } return r; }
#define CASE(D, lo_, hi_, ...) Info i; i.args = { __VA_ARGS__ }; i.name = #D "<" + tname<T>() + ">(" + aname(i.args) + ")"; i.lo = lo_; i.hi = hi_; i.openhi = false;

// ---- continuous, first half: built on one uniform or exponential value
template<class T, class F> void cont1(F&& f) {
  struct P2 { double a, b; };
  for (P2 p : { P2{0, 1}, P2{-2, 3.5}, P2{100, 101}, P2{0, 1e-5}, P2{-1e6, 1e6} }) { T a = (T)p.a, b = (T)p.b; CASE(uniform_real, a, b, (ld)a, (ld)b) i.openhi = true; double A = a, B = b; CDF(return x <= A ? 0 : x >= B ? 1 : (x - A) / (B - A);); f(br::uniform_real_distribution<T>(a, b), i); }
  for (double p : { 1.0, 0.5, 3.0, 1e-3, 1e3, 1e-20, 1e20 }) { T l = (T)p; CASE(exponential, 0, INF, (ld)l) double L = l; CDF(return x <= 0 ? 0 : -std::expm1(-L * x);); SF(return x <= 0 ? 1 : std::exp(-L * x);); f(br::exponential_distribution<T>(l), i); }
  for (P2 p : { P2{0, 1}, P2{1, 2.5}, P2{-3, 0.1}, P2{0, 1e3} }) { T a = (T)p.a, b = (T)p.b; CASE(laplace, -INF, INF, (ld)a, (ld)b) double A = a, B = b; CDF(double z = (x - A) / B; return z < 0 ? 0.5 * std::exp(z) : 1 - 0.5 * std::exp(-z);); SF(double z = (x - A) / B; return z < 0 ? 1 - 0.5 * std::exp(z) : 0.5 * std::exp(-z);); f(br::laplace_distribution<T>(a, b), i); }
  for (P2 p : { P2{0, 1}, P2{1, 2}, P2{-5, 0.25}, P2{0, 100} }) { T a = (T)p.a, b = (T)p.b; CASE(extreme_value, -INF, INF, (ld)a, (ld)b) double A = a, B = b; CDF(return std::exp(-std::exp(-(x - A) / B));); SF(return -std::expm1(-std::exp(-(x - A) / B));); f(br::extreme_value_distribution<T>(a, b), i); }
  for (P2 p : { P2{1, 1}, P2{2, 1}, P2{0.5, 2}, P2{5, 0.1}, P2{1, 100}, P2{20, 3}, P2{0.1, 1} }) { T a = (T)p.a, b = (T)p.b; CASE(weibull, 0, INF, (ld)a, (ld)b) double A = a, B = b; CDF(return x <= 0 ? 0 : -std::expm1(-std::pow(x / B, A));); SF(return x <= 0 ? 1 : std::exp(-std::pow(x / B, A));); i.one = 1; f(br::weibull_distribution<T>(a, b), i); }
  for (P2 p : { P2{0, 1}, P2{2, 0.5}, P2{-10, 4}, P2{0, 1e3} }) { T a = (T)p.a, b = (T)p.b; CASE(cauchy, -INF, INF, (ld)a, (ld)b) double A = a, B = b; const double pi = 3.14159265358979323846; CDF(double z = (x - A) / B; return z < 0 ? std::atan2(1.0, -z) / pi : 1 - std::atan2(1.0, z) / pi;); SF(double z = (x - A) / B; return z > 0 ? std::atan2(1.0, z) / pi : 1 - std::atan2(1.0, -z) / pi;); i.one = 1; f(br::cauchy_distribution<T>(a, b), i); }
  struct P3 { double a, b, c; };
  for (P3 p : { P3{0, 0.5, 1}, P3{0, 0, 1}, P3{0, 1, 1}, P3{-1, 4, 5}, P3{-7, -6.5, 2}, P3{1, 1.125, 3} }) { T a = (T)p.a, b = (T)p.b, c = (T)p.c; CASE(triangle, a, c, (ld)a, (ld)b, (ld)c) double A = a, B = b, C = c; CDF(return x <= A ? 0 : x >= C ? 1 : x <= B ? (x - A) * (x - A) / ((C - A) * (B - A)) : 1 - (C - x) * (C - x) / ((C - A) * (C - B));); i.one = 1; f(br::triangle_distribution<T>(a, b, c), i); }
  { std::vector<std::vector<double>> xs = { {0, 1}, {0, 1, 2, 3}, {-2, -1, 0.5, 4, 10}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {-1e3, 0, 1e-3, 5} }, ws = { {2}, {1, 0, 3}, {0, 2, 5, 0}, {1, 2, 3, 4, 5, 6, 7, 8, 9}, {1, 7, 0.5} };
    for (std::size_t k = 0; k < xs.size(); ++k) {
      std::vector<T> x(xs[k].begin(), xs[k].end()), w(ws[k].begin(), ws[k].end()); double tot = 0; std::vector<double> X(x.begin(), x.end()), W(w.begin(), w.end()); for (double v : W) tot += v;
      Info i; i.name = "piecewise_constant<" + tname<T>() + ">(" + H::cat((u64)k) + ")"; i.lo = x.front(); i.hi = x.back(); i.openhi = true; for (T v : x) i.args.push_back(v); for (std::size_t j = 0; j < W.size(); ++j) i.args.push_back((ld)W[j] / (ld)tot / ((ld)X[j + 1] - (ld)X[j]));
      CDF(double s = 0; for (std::size_t j = 0; j < W.size(); ++j) { if (x >= X[j + 1]) s += W[j]; else { if (x > X[j]) s += W[j] * (x - X[j]) / (X[j + 1] - X[j]); break; } } return s / tot;);
      f(br::piecewise_constant_distribution<T, T>(x.begin(), x.end(), w.begin()), i);
    } }
  { std::vector<std::vector<double>> xs = { {0, 1}, {0, 1, 2, 3}, {-2, -1, 0.5, 4, 10}, {0, 2, 3}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {1, 3} }, ws = { {2, 2}, {1, 0, 3, 1}, {0, 2, 5, 0, 1}, {0, 4, 0}, {1, 0, 0, 4, 5, 6, 0, 8, 9, 0}, {0, 1} };
    for (std::size_t k = 0; k < xs.size(); ++k) {
      std::vector<T> x(xs[k].begin(), xs[k].end()), w(ws[k].begin(), ws[k].end()); double tot = 0; std::vector<double> X(x.begin(), x.end()), W(w.begin(), w.end()); for (std::size_t j = 0; j + 1 < X.size(); ++j) tot += (W[j] + W[j + 1]) / 2 * (X[j + 1] - X[j]);
      Info i; i.name = "piecewise_linear<" + tname<T>() + ">(" + H::cat((u64)k) + ")"; i.lo = x.front(); i.hi = x.back(); i.openhi = false; for (T v : x) i.args.push_back(v); for (double v : W) i.args.push_back((ld)v / (ld)tot);
      CDF(double s = 0; for (std::size_t j = 0; j + 1 < X.size(); ++j) { double h = X[j + 1] - X[j]; if (x >= X[j + 1]) s += (W[j] + W[j + 1]) / 2 * h; else { if (x > X[j]) { double t = (x - X[j]) / h; s += h * t * (W[j] + t * (W[j + 1] - W[j]) / 2); } break; } } return s / tot;);
      f(br::piecewise_linear_distribution<T>(x.begin(), x.end(), w.begin()), i);
    } }
}
template<class T, class F> void cont2(F&& f) {
  struct P2 { double a, b; };
  for (P2 p : { P2{0, 1}, P2{-2, 3.5}, P2{5, 0.125}, P2{0, 1e6} }) { T a = (T)p.a, b = (T)p.b; CASE(normal, -INF, INF, (ld)a, (ld)b) MCDF((bm::normal_distribution<double, Pol>(a, b)), -1e300); f(br::normal_distribution<T>(a, b), i); }
  for (P2 p : { P2{0, 1}, P2{1, 0.25}, P2{-3, 2} }) { T a = (T)p.a, b = (T)p.b; CASE(lognormal, 0, INF, (ld)a, (ld)b) double A = a, B = b; CDF(return x <= 0 ? 0 : 0.5 * std::erfc(-(std::log(x) - A) / B / std::sqrt(2.0));); SF(return x <= 0 ? 1 : 0.5 * std::erfc((std::log(x) - A) / B / std::sqrt(2.0));); f(br::lognormal_distribution<T>(a, b), i); }
  for (P2 p : { P2{1, 1}, P2{0.5, 1}, P2{0.1, 2}, P2{0.99, 1}, P2{1.01, 3}, P2{1.5, 0.5}, P2{2, 1}, P2{5, 2}, P2{30, 1}, P2{1000, 0.01} }) { T a = (T)p.a, b = (T)p.b; CASE(gamma, 0, INF, (ld)a, (ld)b) MCDF((bm::gamma_distribution<double, Pol>(a, b)), 0); f(br::gamma_distribution<T>(a, b), i); }
  for (double p : { 1.0, 2.0, 3.0, 0.5, 10.0, 77.5, 1.99, 2.01 }) { T a = (T)p; CASE(chi_squared, 0, INF, (ld)a) MCDF((bm::chi_squared_distribution<double, Pol>(a)), 0); f(br::chi_squared_distribution<T>(a), i); }
  for (double p : { 1.0, 2.0, 3.5, 30.0, 0.7, 1000.0 }) { T a = (T)p; CASE(student_t, -INF, INF, (ld)a) MCDF((bm::students_t_distribution<double, Pol>(a)), -1e300); i.heavy = true; f(br::student_t_distribution<T>(a), i); }
  for (P2 p : { P2{1, 1}, P2{2, 5}, P2{10, 3}, P2{4, 30}, P2{0.8, 2.5} }) { T a = (T)p.a, b = (T)p.b; CASE(fisher_f, 0, INF, (ld)a, (ld)b) MCDF((bm::fisher_f_distribution<double, Pol>(a, b)), 0); i.heavy = true; f(br::fisher_f_distribution<T>(a, b), i); }
  for (P2 p : { P2{1, 1}, P2{2, 3}, P2{0.5, 0.5}, P2{5, 1}, P2{0.3, 4}, P2{50, 60}, P2{1, 0.2} }) { T a = (T)p.a, b = (T)p.b; CASE(beta, 0, 1, (ld)a, (ld)b) double A = a, B = b; (void)A; (void)B; MCDF((bm::beta_distribution<double, Pol>(a, b)), 0);
#ifndef VERIF_NO_CDF
    { auto c = i.cdf; CDF(return x >= 1 ? 1 : c(x);); auto s = i.sf; SF(return x >= 1 ? 0 : s(x);); }
#endif
    f(br::beta_distribution<T>(a, b), i); }
  for (P2 p : { P2{3, 1}, P2{1, 2}, P2{0.5, 4}, P2{2, 30}, P2{1.5, 0.1}, P2{0.9, 60}, P2{12, 5} }) { T a = (T)p.a, b = (T)p.b; CASE(non_central_chi_squared, 0, INF, (ld)a, (ld)b) MCDF((bm::non_central_chi_squared_distribution<double, Pol>(a, b)), 0); f(br::non_central_chi_squared_distribution<T>(a, b), i); }
  { std::vector<std::vector<double>> ps = { {1}, {1, 3}, {0.2, 0.3, 0.5}, {5, 1, 1, 3} }, rs = { {2}, {1, 10}, {0.1, 1, 100}, {4, 3, 2, 1} };
    for (std::size_t k = 0; k < ps.size(); ++k) {
      std::vector<T> p(ps[k].begin(), ps[k].end()), r(rs[k].begin(), rs[k].end()); std::vector<double> P(p.begin(), p.end()), R(r.begin(), r.end()); double tot = 0; for (double v : P) tot += v; for (double& v : P) v /= tot;
      Info i; i.name = "hyperexponential<" + tname<T>() + ">(" + H::cat((u64)k) + ")"; i.lo = 0; i.hi = INF; i.openhi = false; ld pl = 0; for (T v : p) pl += (ld)v; for (T v : p) i.args.push_back((ld)v / pl); for (T v : r) i.args.push_back(v);
      CDF(double s = 0; if (x > 0) for (std::size_t j = 0; j < P.size(); ++j) s += -P[j] * std::expm1(-R[j] * x); return s;); SF(double s = 0; for (std::size_t j = 0; j < P.size(); ++j) s += P[j] * std::exp(-R[j] * std::max(x, 0.0)); return s;);
      f(br::hyperexponential_distribution<T>(p.begin(), p.end(), r.begin(), r.end()), i);
    } }
}
// ---- counting distributions: T = real type, I = integer type
template<class I, class T, class F> void counting(F&& f) {
  struct P2 { double a, b; }; const double big = (double)std::numeric_limits<I>::max();
  for (double p : { 0.5, 0.0, 1.0, 0.1, 0.999, 0.25, 1e-3, 1.0 / 3 }) { T a = (T)p; CASE(bernoulli, 0, 1, (ld)a) double A = a; CDF(return x < 0 ? 0 : x >= 1 ? 1 : 1 - A;); i.one = a == 0 ? 0 : 1; if (sizeof(I) == 4) f(br::bernoulli_distribution<T>(a), i); }
  for (P2 p : { P2{1, 0.5}, P2{0, 0.5}, P2{10, 0}, P2{10, 1}, P2{10, 0.3}, P2{20, 0.5}, P2{21, 0.5}, P2{22, 0.5}, P2{100, 0.05}, P2{100, 0.105}, P2{100, 0.12}, P2{100, 0.95}, P2{100, 0.89}, P2{100, 0.88}, P2{40, 0.5}, P2{1000, 0.3}, P2{1000, 0.7}, P2{100000, 0.4}, P2{100000, 1e-4}, P2{127, 0.2}, P2{120, 0.9}, P2{3, 1e-6}, P2{5, 1 - 1e-6}, P2{100000, 1 - 1.2e-4} }) {
    if (p.a > big) continue; if (sizeof(T) == 4 && p.b == 1 - 1e-6) continue; I t = (I)p.a; T a = (T)p.b; CASE(binomial, 0, (ld)t, (ld)t, (ld)a) i.name += tname<I>(); MCDF((bm::binomial_distribution<double, Pol>((double)t, a)), -0.5); if (t == 0 || a == 0) { CDF(return x < 0 ? 0 : 1;); SF(return x < 0 ? 1 : 0;); } if (a == 1) { double N = t; CDF(return x < N ? 0 : 1;); SF(return x < N ? 1 : 0;); } f(br::binomial_distribution<I, T>(t, a), i); }
  for (double p : { 0.5, 0.1, 0.9, 0.01, 0.999, 1e-3, 0.3 }) { if (p < 0.05 && sizeof(I) < 4) continue; T a = (T)p; CASE(geometric, 0, (ld)std::numeric_limits<I>::max(), (ld)a) i.name += tname<I>(); double A = a; CDF(return x < 0 ? 0 : -std::expm1(std::log1p(-A) * (std::floor(x) + 1));); SF(return x < 0 ? 1 : std::exp(std::log1p(-A) * (std::floor(x) + 1));); i.one = 1; f(br::geometric_distribution<I, T>(a), i); }
  for (P2 p : { P2{1, 0.5}, P2{3, 0.5}, P2{0, 0.5}, P2{5, 1}, P2{10, 0.1}, P2{2, 0.9}, P2{50, 0.7}, P2{1, 0.02}, P2{100, 0.25} }) { if (sizeof(I) < 4 && p.a * (1 - p.b) / p.b > 20) continue; I k = (I)p.a; T a = (T)p.b; CASE(negative_binomial, 0, (ld)std::numeric_limits<I>::max(), (ld)k, (ld)a) i.name += tname<I>(); if (k == 0 || a == 1) { CDF(return x < 0 ? 0 : 1;); SF(return x < 0 ? 1 : 0;); } else { MCDF((bm::negative_binomial_distribution<double, Pol>((double)k, a)), -0.5); } f(br::negative_binomial_distribution<I, T>(k, a), i); }
  for (double p : { 1.0, 0.1, 0.5, 5.0, 9.9, 9.999, 10.0, 10.001, 11.0, 12.5, 14.0, 18.0, 30.0, 100.0, 1234.5, 1e5, 1e-3 }) { if (p > 30 && sizeof(I) < 4) continue; if (sizeof(T) == 4 && p > 2000) continue; T a = (T)p; CASE(poisson, 0, (ld)std::numeric_limits<I>::max(), (ld)a) i.name += tname<I>(); MCDF((bm::poisson_distribution<double, Pol>(a)), -0.5); f(br::poisson_distribution<I, T>(a), i); }
}
template<class I, class T, class F> void discrete(F&& f) {
  for (std::pair<I,I> p : { std::pair<I,I>(0, 1), std::pair<I,I>(0, 0), std::pair<I,I>(1, 6), std::pair<I,I>(0, 99), std::pair<I,I>(std::numeric_limits<I>::min(), std::numeric_limits<I>::max()), std::pair<I,I>(3, 127) }) { CASE(uniform_int, p.first, p.second, (ld)p.first, (ld)p.second) i.name += tname<I>(); double A = p.first, B = p.second; CDF(return x < A ? 0 : x >= B ? 1 : (std::floor(x) - A + 1) / (B - A + 1);); if (std::is_same<T, double>::value) f(br::uniform_int_distribution<I>(p.first, p.second), i); }
  for (std::pair<I,I> p : { std::pair<I,I>(0, 1), std::pair<I,I>(1, 6), std::pair<I,I>(0, 99) }) { CASE(uniform_smallint, p.first, p.second, (ld)p.first, (ld)p.second) i.name += tname<I>(); double A = p.first, B = p.second; CDF(return x < A ? 0 : x >= B ? 1 : (std::floor(x) - A + 1) / (B - A + 1);); i.one = 1; if (std::is_same<T, double>::value) f(br::uniform_smallint<I>(p.first, p.second), i); }
  for (std::vector<double> w : { std::vector<double>{1}, {1, 1}, {1, 2, 3, 4}, {0, 1, 0, 3}, {10, 0, 0, 0, 1}, {0.5, 0.25, 0.125, 0.125}, {1e-3, 1, 1000}, {3, 3, 3, 3, 3, 3, 3}, {1, 0}, {0, 1}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20} }) {
    std::vector<T> W(w.begin(), w.end()); double tot = 0; ld tl = 0; for (double v : w) tot += v, tl += (ld)(T)v; Info i; std::vector<ld> a; for (double v : w) { a.push_back((ld)v); i.args.push_back((ld)(T)v / tl); } i.name = "discrete<" + tname<T>() + "," + tname<I>() + ">(" + aname(a) + ")"; i.lo = 0; i.hi = w.size() - 1; i.openhi = false;
    CDF(double s = 0; for (std::size_t j = 0; j < w.size() && (double)j <= x; ++j) s += w[j]; return s / tot;); f(br::discrete_distribution<I, T>(W.begin(), W.end()), i);
  }
}
// integer weights: the probabilities reported are the weights themselves, exactly
template<class I, class W, class T, class F> void intweights1(F&& f) {
  const W M = std::numeric_limits<W>::max();
  for (std::vector<W> w : { std::vector<W>{1}, {1, 1}, {1, 2, 3, 4}, {0, 1, 0, 3}, {10, 0, 0, 0, 1}, {3, 3, 3, 3, 3, 3, 3}, {1, 0}, {0, 1}, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}, {(W)(M / 2), (W)(M - M / 2)}, {M, M, 5}, {M, 0, M, 1, M}, {5, 4, 3, 2, 1, 2, 3, 4, 5, 100} }) {
    double tot = 0; Info i; std::vector<ld> a; for (W v : w) tot += (double)v, a.push_back((ld)v), i.args.push_back((ld)v); i.name = "discrete_int<" + tname<W>() + "," + tname<I>() + ">(" + aname(a) + ")"; i.lo = 0; i.hi = w.size() - 1; i.openhi = false;
    CDF(double s = 0; for (std::size_t j = 0; j < w.size() && (double)j <= x; ++j) s += (double)w[j]; return s / tot;); f(br::discrete_distribution<I, W>(w.begin(), w.end()), i);
  }
}
template<class W, class T, class F> void intweights2(F&& f) {
  std::vector<std::vector<double>> xs = { {0, 1}, {0, 1, 2, 3}, {-2, -1, 0.5, 4, 10}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9} }; std::vector<std::vector<W>> ws = { {2}, {1, 0, 3}, {0, 2, 5, 0}, {1, 2, 3, 4, 5, 6, 7, 8, 9} };
  for (std::size_t k = 0; k < xs.size(); ++k) {
    std::vector<T> x(xs[k].begin(), xs[k].end()); double tot = 0; std::vector<double> X(x.begin(), x.end()), w(ws[k].begin(), ws[k].end()); for (double v : w) tot += v;
    Info i; i.name = "piecewise_constant_int<" + tname<W>() + "," + tname<T>() + ">(" + H::cat((u64)k) + ")"; i.lo = x.front(); i.hi = x.back(); i.openhi = true; for (T v : x) i.args.push_back(v); for (std::size_t j = 0; j < w.size(); ++j) i.args.push_back((ld)w[j] / (ld)tot / ((ld)X[j + 1] - (ld)X[j]));
    CDF(double s = 0; for (std::size_t j = 0; j < w.size(); ++j) { if (x >= X[j + 1]) s += w[j]; else { if (x > X[j]) s += w[j] * (x - X[j]) / (X[j + 1] - X[j]); break; } } return s / tot;);
    f(br::piecewise_constant_distribution<T, W>(x.begin(), x.end(), ws[k].begin()), i);
  }
}
template<class T, class F> void intweights(F&& f) {
  if constexpr (sizeof(T) == 8) { intweights1<int, int, T>(f); intweights2<int, T>(f); } else if constexpr (sizeof(T) == 4) { intweights1<short, unsigned, T>(f); } else intweights1<int, u64, T>(f);
}
#endif
