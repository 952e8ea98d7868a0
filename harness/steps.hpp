// A catalogue of every kind of library object as a deterministic process: each
// step uses the object once and returns a digest of what it delivered.
// VERIF_SET: PRE0..PRE5, REC0.., ADP0.. engine groups; 1-4 distribution
// families; 5 quasi-random engines, seed sequences and functions.
#ifndef VERIF_STEPS_HPP
#define VERIF_STEPS_HPP
#define VERIF_NO_CDF
#include "h.hpp"
#include <memory>
#include <sstream>
struct Step { virtual ~Step() {} virtual u64 step() = 0; };
struct Kind { std::string name; std::function<std::unique_ptr<Step>(u64)> make; };
inline std::vector<Kind>& kinds() { static std::vector<Kind> v; return v; }
template<class V> u64 digest(const V& v);
inline u64 dbytes(const void* p, std::size_t n) { u64 h = 1469598103934665603ull; const unsigned char* c = (const unsigned char*)p; for (std::size_t k = 0; k < n; ++k) { h ^= c[k]; h *= 1099511628211ull; } return h; }
#ifdef VERIF_TRACE   // every value that enters a digest is also written down, for the comparison of builds
inline std::FILE*& tracef() { static std::FILE* f = 0; return f; } inline u64& traced() { static u64 n = 0; return n; }
template<class T> void trace(const T& x) { if (!tracef()) return; ++traced(); if (std::is_floating_point<T>::value) std::fprintf(tracef(), "%.*Lg\n", std::numeric_limits<T>::max_digits10, (long double)x); else if (std::is_signed<T>::value) std::fprintf(tracef(), "%lld\n", (long long)x); else std::fprintf(tracef(), "%llu\n", (unsigned long long)x); }
inline void trace_text(const std::string& s) { if (tracef()) { ++traced(); std::fprintf(tracef(), "= %s\n", s.c_str()); } }
#else
template<class T> void trace(const T&) {}
inline void trace_text(const std::string&) {}
#endif
template<class T> u64 digest1(const T& x, std::true_type) { trace(x); return std::is_same<T, long double>::value ? dbytes(&x, 10) : dbytes(&x, sizeof x); }
template<class V> u64 digest1(const V& v, std::false_type) { u64 h = v.size(); for (auto& x : v) h = H::mix(h, digest(x)); return h; }
template<class V> u64 digest(const V& v) { return digest1(v, std::is_arithmetic<V>()); }
inline u64 digest(const std::string& s) { trace_text(s); return H::hash(s); }
#define VSTR2(x) #x
#define VSTR(x) VSTR2(x)
#ifdef VERIF_GROUP
#include "engines.hpp"
template<class E> struct CanRange : std::integral_constant<bool, !std::is_same<E, br::splitmix64>::value> {};
// engines that discard in less than linear time
template<class E> struct Far : std::false_type {}; template<class T, T a, T c, T m> struct Far<br::linear_congruential_engine<T, a, c, m>> : std::true_type {};
template<class T, std::size_t w, std::size_t n, std::size_t m, std::size_t r, T a, std::size_t u, T d, std::size_t s, T b, std::size_t t, T c, std::size_t l, T f> struct Far<br::mersenne_twister_engine<T, w, n, m, r, a, u, d, s, b, t, c, l, f>> : std::integral_constant<bool, (m > 1)> {};   // m = 1: a known finding of P05
template<class A, class B> struct Far<br::additive_combine_engine<A, B>> : std::true_type {}; template<> struct Far<br::rand48> : std::true_type {};
template<class E> struct EngStep : Step {
  H::Rng r; E e; EngStep(u64 s) : r(s), e() { if (r.coin()) e.seed((u32)(1 + r.below(2000000000))); }
  static const bool text = sizeof(typename E::result_type) > 1;
  u64 step() {
    u64 h = 0;
    switch (r.below(10)) {
      case 0: { u64 j = r.below(100); e.discard(j); h = j; break; }
      case 1: if constexpr (text) { std::stringstream s; s << e; h = digest(s.str()); E f; s >> f; h = H::mix(h, f == e); e = f; } break;
      case 2: { E c(e); h = digest(c()); h = H::mix(h, c == e); break; }
      case 3: if constexpr (CanRange<E>::value) { std::vector<u32> v(700); for (auto& x : v) x = (u32)r.next(); auto a = v.begin(); if (r.below(4) == 0) { try { e.seed(a, v.end()); h = (u64)(a - v.begin()); } catch (std::invalid_argument&) { h = 99; e.seed(); } } break; }
      case 4: if (r.below(4) == 0) { br::seed_seq q{ (u32)r.next(), 5u }; e.seed(q); h = 1; } break;
      case 5: if (r.below(4) == 0) { e.seed((u32)(1 + r.below(1000))); } else if (r.below(4) == 0) e.seed(); h = 2; break;
      default: for (u64 k = r.below(20) + 1; k--;) h = H::mix(h, digest(e()));
    }
    return h;
  }
};
template<class E> void addEngine(const char* n) { kinds().push_back({ n, [](u64 s) { return std::unique_ptr<Step>(new EngStep<E>(s)); } }); }
#define X(n) addEngine<E_##n>(#n);
struct Fill { Fill() { VERIF_GROUP(X) } } fill;
#undef X
#elif VERIF_SET <= 4
#include "dists.hpp"
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/variate_generator.hpp>
#include <boost/random/random_number_generator.hpp>
#ifndef VERIF_T
#define VERIF_T double
#endif
typedef VERIF_T T;
template<class D, class E> struct DistStep : Step {
  H::Rng r; E e; D d; DistStep(u64 s, const D& x) : r(s), e((u32)(1 + r.below(1000000))), d(x) {}
  u64 step() {
    u64 h = 0;
    switch (r.below(8)) {
      case 0: { std::stringstream s; s.precision(40); s << d; h = digest(s.str()); D f(d); s >> f; d = f; h = H::mix(h, bool(s)); break; }
      case 1: { D c(d); E e2(e); h = digest(c(e2)); h = H::mix(h, c == d); break; }
      case 2: d.reset(); d.param(d.param()); break;
      case 3: h = digest(d(e, d.param())); break;
      case 4: { boost::variate_generator<E&, D> g(e, d); h = digest(g()); break; }
      default: for (u64 k = r.below(6) + 1; k--;) h = H::mix(h, digest(d(e)));
    }
    return h;
  }
};
struct Fill { Fill() { auto f = [](auto d, const Info& i) { typedef decltype(d) D; if (i.heavy && false) return;
    kinds().push_back({ i.name, [d](u64 s) { return std::unique_ptr<Step>(new DistStep<D, br::mt19937>(s, d)); } });
    if (kinds().size() % 3 == 0) kinds().push_back({ i.name + " on minstd_rand", [d](u64 s) { return std::unique_ptr<Step>(new DistStep<D, br::minstd_rand>(s, d)); } }); };
#if VERIF_SET == 1
  cont1<T>(f);
#elif VERIF_SET == 2
  cont2<T>(f);
#elif VERIF_SET == 3
  counting<int, T>(f);
#else
  discrete<int64_t, T>(f); intweights<T>(f); for (int d : { 1, 2, 3, 4, 7 }) { CASE(sphere, -1, 1, (ld)d) f(br::uniform_on_sphere<T>(d), i); }
  for (std::pair<int, int> p : { std::pair<int, int>(0, 9), std::pair<int, int>(-5, 1000000) }) { { CASE(uniform_int_old, p.first, p.second) f(boost::uniform_int<int>(p.first, p.second), i); } CASE(uniform_int, p.first, p.second) f(br::uniform_int_distribution<int>(p.first, p.second), i); f(br::uniform_int_distribution<unsigned char>(1, 200), i); }
#endif
} } fill;
#else
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/sobol.hpp>
#include <boost/random/faure.hpp>
#include <boost/random/seed_seq.hpp>
#include <boost/random/generate_canonical.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/independent_bits.hpp>
namespace br = boost::random;
template<class Q> struct QStep : Step {
  H::Rng r; Q q; u64 dim; QStep(u64 s, std::size_t d) : r(s), q(d), dim(d) {}
  u64 step() {
    u64 h = 0;
    switch (r.below(9)) {
      case 0: q.discard(r.below(3 * dim + 7)); break;
      case 1: { std::stringstream s; s << q; h = digest(s.str()); Q f(1 + r.below(5)); s >> f; h = H::mix(h, f == q); q = f; break; }
      case 2: { Q c(q); h = digest(c()); break; }
      case 3: q.seed(r.below(1000)); break;
      case 4: if (r.below(3) == 0) q.seed(); break;
      default: for (u64 k = r.below(2 * dim) + 1; k--;) h = H::mix(h, digest(q()));
    }
    return h;
  }
};
template<class Q> void addQ(const char* n, std::initializer_list<std::size_t> ds) { for (std::size_t d : ds) kinds().push_back({ H::cat(n, " ", (u64)d), [d](u64 s) { return std::unique_ptr<Step>(new QStep<Q>(s, d)); } }); }
struct SeqStep : Step {
  H::Rng r; std::vector<u32> in; SeqStep(u64 s) : r(s) { for (u64 k = r.below(20); k--;) in.push_back((u32)r.next()); }
  u64 step() { br::seed_seq q(in.begin(), in.end()); std::vector<u32> o(r.below(700)); q.generate(o.begin(), o.end()); std::vector<u32> p(q.size()); q.param(p.begin()); br::seed_seq q2{ 1u, 2u }; std::vector<u32> o2(9); q2.generate(o2.begin(), o2.end()); u64 h = digest(o); h = H::mix(h, digest(p)); return H::mix(h, digest(o2)); }
};
struct FunStep : Step {
  br::mt19937 m; br::minstd_rand n; br::mt19937_64 w; H::Rng r; FunStep(u64 s) : m((u32)s), n((u32)(s % 1000 + 1)), w(s), r(s) {}
  u64 step() { u64 h = digest(br::generate_canonical<double, 53>(m)); h = H::mix(h, digest(br::generate_canonical<float, 24>(w))); h = H::mix(h, digest(br::uniform_01<double>()(n))); h = H::mix(h, digest(br::uniform_01<float>()(m))); h = H::mix(h, digest(br::uniform_int_distribution<u64>(0, r.next() | 1)(n))); h = H::mix(h, digest(br::uniform_int_distribution<int>(-5, (int)r.below(1000))(w)));
    br::random_number_generator<br::mt19937, int> g(m); h = H::mix(h, digest(g(1 + (int)r.below(100)))); std::vector<u32> v(r.below(40)); m.generate(v.begin(), v.end()); h = H::mix(h, digest(v)); br::independent_bits_engine<br::minstd_rand, 17, u32> ib((u32)r.next()); h = H::mix(h, digest(ib())); return h; }
};
struct Fill { Fill() {
  addQ<br::sobol>("sobol", { 1, 2, 5, 40 }); addQ<br::niederreiter_base2>("niederreiter_base2", { 1, 2, 5, 40 }); addQ<br::faure>("faure", { 1, 2, 3, 7, 40, 101 });
  addQ<br::sobol_engine<std::uint32_t, 31u>>("sobol31", { 3 }); addQ<br::niederreiter_base2_engine<std::uint32_t, 17u>>("niederreiter17", { 4 }); addQ<br::faure_engine<float, std::uint32_t>>("faure float", { 6 });
  kinds().push_back({ "seed_seq", [](u64 s) { return std::unique_ptr<Step>(new SeqStep(s)); } }); kinds().push_back({ "functions", [](u64 s) { return std::unique_ptr<Step>(new FunStep(s)); } });
} } fill;
#endif
#endif
