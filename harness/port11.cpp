// P30: like port.cpp, for compilers in C++11 mode (the oldest language version
// of the library): each class, in plain use, its values written down.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <algorithm>
#include <exception>
#include <boost/random.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/faure.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/non_central_chi_squared_distribution.hpp>
#include <boost/random/seed_seq.hpp>
#include <boost/random/generate_canonical.hpp>
#include <boost/random/random_number_generator.hpp>
namespace br = boost::random;
typedef unsigned long long u64;
static std::FILE* F; static u64 count, seed = 1; static int N = 400; static std::vector<u64> seen;
static void out(long double v, bool real, int digits) { if (real) std::fprintf(F, "%.*Lg\n", digits, v); }
template<class T> typename std::enable_if<std::is_floating_point<T>::value>::type put(T v) { ++count; out(v, true, std::numeric_limits<T>::max_digits10); u64 h = 0; double d = (double)v; std::memcpy(&h, &d, 8); seen.push_back(h); }
template<class T> typename std::enable_if<std::is_integral<T>::value>::type put(T v) { ++count; seen.push_back((u64)v); if (std::is_signed<T>::value) std::fprintf(F, "%lld\n", (long long)v); else std::fprintf(F, "%llu\n", (u64)v); }
static void put(const std::string& s) { ++count; std::fprintf(F, "= %s\n", s.c_str()); }
template<class V> void put(const std::vector<V>& v) { for (std::size_t k = 0; k < v.size(); ++k) put(v[k]); }
template<class E> void engine(const char* n) {
  std::fprintf(F, "# %s\n", n); E e; for (int k = 0; k < N; ++k) put(e()); e.seed((unsigned)seed + 17); for (int k = 0; k < N; ++k) put(e());
  std::stringstream s; s << e; if (N * 1000 > (int)s.str().size()) put(s.str()); E f; s >> f; put(int(f == e)); put(int(f != e)); e.discard(1000); f = e; put(f()); put(e()); br::seed_seq q{ 1u, 2u, (unsigned)seed }; e.seed(q); for (int k = 0; k < N; ++k) put(e());
  put((E::min)()); put((E::max)());
}
static void splitmix(const char* n) { std::fprintf(F, "# %s\n", n); br::splitmix64 e; e.seed(seed + 17); for (int k = 0; k < N; ++k) put((u64)e()); std::stringstream s; s << e; put(s.str()); br::splitmix64 f; s >> f; put(int(e == f)); e.discard(100); put((u64)e()); }
template<class Q> void qrng(const char* n) { for (int d = 1; d < 12; d += 3) { std::fprintf(F, "# %s %d\n", n, d); Q q(d); for (int k = 0; k < N; ++k) put(q()); q.discard(1001); put(q()); q.seed(77); put(q()); std::stringstream s; s << q; put(s.str()); Q r(2); s >> r; put(int(r == q)); put(r()); } }
template<class D> void dist(const char* n, D d) {
  std::fprintf(F, "# %s\n", n); { br::mt19937 e((unsigned)seed); for (int k = 0; k < N; ++k) put(d(e)); } { br::minstd_rand e((unsigned)seed + 1); for (int k = 0; k < N; ++k) put(d(e)); } { br::mt19937_64 e(seed); D c(d); d.reset(); for (int k = 0; k < N; ++k) put(d(e, c.param())); put(int(c == d)); }
  { br::lagged_fibonacci607 e((unsigned)seed); for (int k = 0; k < N; ++k) put(d(e)); } { br::variate_generator<br::ranlux48, D> g(br::ranlux48((unsigned)seed), d); for (int k = 0; k < N; ++k) put(g()); }
  std::stringstream s; s.precision(17); s << d; put(s.str()); D f(d); s >> f; put(int(!s.fail())); put(int(f != d));
}
static void engines() {
#define X(n) engine<br::n>(#n);
  X(minstd_rand0) X(minstd_rand) X(rand48) X(ecuyer1988) X(kreutzer1986) X(knuth_b) X(hellekalek1995) X(taus88) X(mt11213b) X(mt19937) X(mt19937_64) X(lagged_fibonacci607) X(lagged_fibonacci1279) X(lagged_fibonacci2281) X(lagged_fibonacci4423)
  X(ranlux24_base) X(ranlux24) X(ranlux48_base) X(ranlux48) X(ranlux3) X(ranlux4) X(ranlux3_01) X(ranlux4_01) X(ranlux64_3) X(ranlux64_4) X(ranlux64_3_01) X(ranlux64_4_01) X(mixmax)
#undef X
  splitmix("splitmix64"); engine<br::independent_bits_engine<br::minstd_rand, 29, unsigned> >("independent_bits"); engine<br::independent_bits_engine<br::mt19937, 64, u64> >("independent_bits64");
  { std::fprintf(F, "# seed_seq\n"); br::seed_seq q{ 1u, 0xffffffffu, (unsigned)seed }; for (int n = 0; n < 100; n += 7) { std::vector<unsigned> v(n); q.generate(v.begin(), v.end()); put(v); } br::mt19937 e; std::vector<unsigned> v(50); e.generate(v.begin(), v.end()); put(v); }
}
static void dists() {
#define D(...) dist(#__VA_ARGS__, __VA_ARGS__);
  D(br::uniform_smallint<>(0, 9)) D(br::uniform_int_distribution<>(-7, 100000)) D(br::uniform_int_distribution<u64>(0, ~0ull)) D(br::uniform_real_distribution<>(-1, 3)) D(boost::uniform_int<>(1, 6)) D(boost::uniform_real<>(0, 2))
  D(br::bernoulli_distribution<>(0.3)) D(br::binomial_distribution<>(7, 0.4)) D(br::binomial_distribution<>(400, 0.37)) D(br::geometric_distribution<>(0.2)) D(br::negative_binomial_distribution<>(5, 0.3)) D(br::poisson_distribution<>(3.5)) D(br::poisson_distribution<>(55))
  D(br::exponential_distribution<>(2)) D(br::gamma_distribution<>(0.4, 2)) D(br::gamma_distribution<>(1.5, 2)) D(br::weibull_distribution<>(2, 3)) D(br::extreme_value_distribution<>(1, 2)) D(br::beta_distribution<>(2, 0.7)) D(br::laplace_distribution<>(1, 2)) D(br::triangle_distribution<>(0, 1, 4))
  D(br::normal_distribution<>(1, 2)) D(br::lognormal_distribution<>(1, 0.5)) D(br::chi_squared_distribution<>(3)) D(br::non_central_chi_squared_distribution<>(3, 2)) D(br::cauchy_distribution<>(1, 2)) D(br::fisher_f_distribution<>(3, 5)) D(br::student_t_distribution<>(4))
  D(br::normal_distribution<float>(1, 2)) D(br::gamma_distribution<float>(1.5f, 2)) D(br::exponential_distribution<float>(2))
#undef D
  { double w[] = { 1, 5, 0, 2.5 }; dist("discrete", br::discrete_distribution<>(w, w + 4)); double b[] = { 0, 1, 4, 5, 9 }; dist("piecewise_constant", br::piecewise_constant_distribution<>(b, b + 5, w)); double x[] = { 1, 2, 0, 3, 1 }; dist("piecewise_linear", br::piecewise_linear_distribution<>(b, b + 5, x)); std::vector<double> p(w, w + 2), r(b + 1, b + 3); dist("hyperexponential", br::hyperexponential_distribution<>(p.begin(), p.end(), r.begin(), r.end())); }
  dist("sphere", br::uniform_on_sphere<double, std::vector<double> >(3)); dist("sphere2", br::uniform_on_sphere<double, std::vector<double> >(2)); dist("sphere7", br::uniform_on_sphere<double, std::vector<double> >(7));
  { std::fprintf(F, "# functions\n"); br::mt19937 e((unsigned)seed); br::minstd_rand m; br::uniform_01<> u; br::random_number_generator<br::mt19937> g(e); for (int k = 0; k < N; ++k) { put(br::generate_canonical<double, 53>(m)); put(br::generate_canonical<float, 24>(e)); put(u(m)); put(g(1 + k)); } }
  qrng<br::sobol>("sobol"); qrng<br::niederreiter_base2>("niederreiter_base2"); qrng<br::faure>("faure");
}
int main(int n, char** a) {
  std::string run; for (int k = 1; k < n; ++k) { if (!std::strcmp(a[k], "--list")) { std::printf("plain engines\nplain distributions\n"); return 0; } if (k + 1 < n) { if (!std::strcmp(a[k], "--run")) run = a[k + 1]; if (!std::strcmp(a[k], "--seed")) seed = std::strtoull(a[k + 1], 0, 10); if (!std::strcmp(a[k], "--tier") && !std::strcmp(a[k + 1], "thorough")) N = 5000; } }
  const char* fn = std::getenv("VERIF_TRACE_FILE"); F = fn ? std::fopen(fn, "w") : 0; if (!F) return 3;
  try { if (run == "plain engines") engines(); else dists(); } catch (std::exception& e) { std::printf("{\"t\":\"viol\",\"key\":\"exception\",\"msg\":\"an exception\"}\n"); }
  std::fprintf(F, "# end\n"); if (std::fclose(F)) return 4;
  std::sort(seen.begin(), seen.end()); std::size_t d = std::unique(seen.begin(), seen.end()) - seen.begin();
  std::printf("{\"t\":\"done\",\"evals\":%llu,\"distinct\":%llu,\"events\":{\"values written down\":%llu},\"samples\":[\"plain use\"]}\n", count, (u64)d, count);
}
