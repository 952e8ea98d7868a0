// P28 undefined behaviour, memory errors and leaks.  The catalogue of steps.hpp
// is walked under sanitizers, under valgrind and in memory filled with
// different patterns; allocations fail and engines, iterators and seed
// sequences throw at every point; streams are cut off and damaged.
//   VERIF_PAINT  own operator new that fills memory and counts live blocks
#include <new>
#include <cstdlib>
#include <cstring>
namespace A { long live = 0, count = 0, fail = -1; unsigned char pat = 0; unsigned long long x = 1; int mode = 0; }
#ifdef VERIF_PAINT
static void fillmem(void* p, std::size_t n) { unsigned char* c = (unsigned char*)p; for (std::size_t k = 0; k < n; ++k) { if (A::mode) { A::x = A::x * 6364136223846793005ull + 1; c[k] = (unsigned char)(A::x >> 56); } else c[k] = A::pat; } }
struct Hd { std::size_t n; std::size_t magic; };
void* operator new(std::size_t n) {
  if (A::fail >= 0 && A::fail-- == 0) throw std::bad_alloc();
  Hd* h = (Hd*)std::malloc(n + sizeof(Hd)); if (!h) throw std::bad_alloc(); h->n = n; h->magic = 0x5ca1ab1e; fillmem(h + 1, n); ++A::live; ++A::count; return h + 1;
}
void operator delete(void* p) noexcept { if (!p) return; Hd* h = (Hd*)p - 1; if (h->magic != 0x5ca1ab1e) std::abort(); h->magic = 1; fillmem(p, h->n); --A::live; std::free(h); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
__attribute__((noinline)) void paint_stack() { unsigned char b[200000]; fillmem(b, sizeof b); __asm__ volatile("" : : "r"(b) : "memory"); }
#else
inline void paint_stack() {}
#endif
#include "steps.hpp"
#ifndef VERIF_MULT
#define VERIF_MULT 1
#endif
static u64 sd(std::size_t kind, u64 copy) { return H::mix(H::st().seed, H::mix(kind * 64 + copy, 28)); }
static int steps() { return (int)H::n(20 * VERIF_MULT, 120 * VERIF_MULT); }
static std::vector<u64> walk(const Kind& k, u64 seed, int n) { std::vector<u64> r; paint_stack(); auto s = k.make(seed); for (int i = 0; i < n; ++i) { paint_stack(); r.push_back(s->step()); } return r; }

#ifndef VERIF_PAINT
SCEN("walk") {
  for (std::size_t k = 0; k < kinds().size(); ++k) { for (u64 c = 0; c < H::n(2, 6); ++c) { auto a = walk(kinds()[k], sd(k, c), steps()); H::eval(a.size()); H::event("steps", a.size()); H::seen(digest(a)); } H::event("kinds"); H::sample(kinds()[k].name); }
}
#else
// what a fresh object delivers does not depend on what its memory held before
SCEN("paint") {
  for (std::size_t k = 0; k < kinds().size(); ++k) for (u64 c = 0; c < H::n(2, 5); ++c) {
    A::mode = 0; A::pat = 0; auto a = walk(kinds()[k], sd(k, c), steps()); H::seen(digest(a));
    for (int m = 0; m < 4; ++m) { A::mode = m == 3; A::pat = m == 0 ? 0xff : m == 1 ? 0xa5 : 0x01; auto b = walk(kinds()[k], sd(k, c), steps()); std::size_t i = 0; while (i < a.size() && a[i] == b[i]) ++i; CHECK(a == b, H::cat("paint/", kinds()[k].name), "step ", (u64)i, " depends on what the memory held before"); H::event("steps compared", a.size()); }
    A::mode = 0; A::pat = 0;
  }
  H::sample(kinds()[0].name);
}
// every allocation of a step fails in turn; the object is used further and destroyed; nothing is lost
SCEN("allocation") {
  u64 ev[3] = { 0, 0, 0 };
  for (std::size_t k = 0; k < kinds().size(); ++k) for (u64 c = 0; c < H::n(2, 6); ++c) {
    walk(kinds()[k], sd(k, c), 5); const int n = (int)H::n(12, 40);
    for (int at = -1; at < n; ++at) {     // -1: the constructor
      long cnt; { std::unique_ptr<Step> s; long c0 = 0; if (at >= 0) { s = kinds()[k].make(sd(k, c)); for (int i = 0; i < at; ++i) s->step(); } c0 = A::count; if (at < 0) s = kinds()[k].make(sd(k, c)); else s->step(); cnt = A::count - c0; }
      const long stride = cnt > 40 ? cnt / 20 : 1;
      for (long f = 0; f < cnt; f += stride) {
        const long live = A::live;
        { std::unique_ptr<Step> s; bool thrown = false;
          if (at >= 0) { s = kinds()[k].make(sd(k, c)); for (int i = 0; i < at; ++i) s->step(); }
          A::fail = f; try { if (at < 0) s = kinds()[k].make(sd(k, c)); else s->step(); } catch (std::bad_alloc&) { thrown = true; } catch (std::exception& e) { A::fail = -1; H::viol(H::cat("allocation/", kinds()[k].name), H::cat("another exception: ", e.what())); }
          const bool hit = A::fail == -1; A::fail = -1; ev[thrown ? 0 : hit ? 1 : 2]++;
          if (s) for (int i = 0; i < 15; ++i) s->step(); }
        CHECK(A::live == live, H::cat("leak/", kinds()[k].name), A::live - live, " blocks lost after allocation ", (u64)f, " of step ", at, " failed"); H::seen(H::mix(sd(k, c), H::mix(at + 7, f)));
      }
    }
  }
  H::event("allocation failures that ended in an exception", ev[0]); H::event("allocation failures absorbed by a stream", ev[1]); H::event("allocation failures not reached", ev[2]);
}
SCEN("leak") {
  for (std::size_t k = 0; k < kinds().size(); ++k) { walk(kinds()[k], sd(k, 0), 5); for (u64 c = 0; c < H::n(2, 6); ++c) { const long live = A::live; { auto s = kinds()[k].make(sd(k, c)); for (int i = 0; i < steps(); ++i) s->step(); } CHECK(A::live == live, H::cat("leak/", kinds()[k].name), A::live - live, " blocks never freed"); H::seen(sd(k, c)); } }
}
#endif

#ifndef VERIF_WALKONLY
// ---- exceptions from what the library calls
struct Boom {};
#ifdef VERIF_GROUP
// an iterator and a seed sequence that throw at the n-th use
struct ThrowIt { typedef std::input_iterator_tag iterator_category; typedef u32 value_type; typedef std::ptrdiff_t difference_type; typedef const u32* pointer; typedef u32 reference;
  u64 pos, at; H::Rng* r; u32 operator*() const { if (pos >= at) throw Boom(); return (u32)H::mix(pos, 77); } ThrowIt& operator++() { ++pos; return *this; } ThrowIt operator++(int) { ThrowIt t(*this); ++pos; return t; } bool operator==(const ThrowIt& o) const { return pos == o.pos; } bool operator!=(const ThrowIt& o) const { return pos != o.pos; } };
struct ThrowSeq { typedef u32 result_type; u64 left; template<class It> void generate(It a, It b) { u64 k = 0; for (; a != b; ++a) { if (k >= left) throw Boom(); *a = (typename std::iterator_traits<It>::value_type)H::mix(k++, 5); } } };
template<class E> void use(E& e, const char* n, const char* after) { for (int k = 0; k < 3000; ++k) { auto v = e(); CHECK(v >= (e.min)() && v <= (e.max)(), H::cat(n, "/", after), "value ", v, " outside the bounds after an operation that failed"); } e.discard(1500); e(); E c(e); CHECK(c == e, H::cat(n, "/", after), "copy differs"); e.seed(); E f; CHECK(e == f, H::cat(n, "/", after), "seed() after a failure differs from a fresh engine"); H::event(H::cat("engines used after ", after)); }
template<class E> void hostile(const char* n) {
  H::Rng r = H::rng(H::hash(n)); const bool text = EngStep<E>::text;
  if constexpr (CanRange<E>::value) {
    std::set<u64> ats = { 0, 1, 2, 3, 5, 623, 624, 625 }; for (int k = 0; k < 6; ++k) ats.insert(r.below(50)), ats.insert(r.below(1500));
    for (u64 at : ats) { { E e; for (u64 k = r.below(5); k--;) e(); ThrowIt a = { 0, at, &r }, b = { ~0ull, at, &r }; try { e.seed(a, b); } catch (Boom&) { H::event("iterators that threw"); } use(e, n, "a throwing iterator"); }
      { ThrowIt a = { 0, at, &r }, b = { ~0ull, at, &r }; try { E e(a, b); use(e, n, "construction"); } catch (Boom&) {} }
      { E e; ThrowIt a = { 0, ~0ull, &r }, b = { at, ~0ull, &r }; try { e.seed(a, b); } catch (std::invalid_argument&) { H::event("ranges too short"); } use(e, n, "a short range"); }
      { std::vector<u32> v(at); for (auto& x : v) x = (u32)r.next(); std::vector<u32> w(v); w.shrink_to_fit(); E e; auto i = w.begin(); try { e.seed(i, w.end()); } catch (std::invalid_argument&) {} use(e, n, "a short range"); }
      H::seen(H::mix(at, H::hash(n))); }
  }
  for (u64 at : { 0, 1, 2, 7, 11, 100, 1247 }) { E e; ThrowSeq q = { at }; try { e.seed(q); } catch (Boom&) { H::event("seed sequences that threw"); } use(e, n, "a throwing seed sequence"); }
  if constexpr (text) {
    std::ostringstream o; E e0; e0.discard(3); o << e0; const std::string s = o.str(); const std::size_t L = s.size(); const bool big = L > 20000;
    for (u64 j = 0; j < (big ? 12 : H::n(60, 600)); ++j) {
      // cut off, or interrupted by something that is no number
      std::string t = s; if (j % 2) t.resize(r.below(L)); else t[r.below(L)] = "x:.]"[r.below(4)];
      E e; for (u64 k = r.below(4); k--;) e(); { std::istringstream is(t); is >> e; H::event(is ? "texts read" : "texts refused"); if (is) e.seed(); }
      // an engine that could not read its text may hold any state, but has to stay inside its memory (a well-formed text of no possible state is not a valid argument)
      for (int k = 0; k < 3000; ++k) e(); e.discard(1500); e(); E c(e); std::ostringstream o2; o2 << c; e.seed(); E f; CHECK(e == f, H::cat(n, "/text"), "seed() after a damaged text differs from a fresh engine"); H::seen(t.substr(0, 200));
    }
  }
  if constexpr (Far<E>::value) for (u64 j : std::vector<u64>{ 10000001ull, 1ull << 40, ~0ull, r.next() }) { E e; for (u64 k = r.below(700); k--;) e(); e.discard(j); use(e, n, "a long discard"); }
  // generate into ranges that end where the memory ends
  for (std::size_t len : { 0, 1, 2, 3, 7, 8, 624, 625 }) { E e; std::vector<u32> a(len); a.shrink_to_fit(); if constexpr (std::is_integral<typename E::result_type>::value) { e.generate(a.begin(), a.end()); std::vector<u64> b(len); e.generate(b.begin(), b.end()); std::vector<unsigned short> d(len); e.generate(d.begin(), d.end()); } H::eval(); }
}
#define X(nm) SCEN(H::cat("hostile ", #nm).c_str()) { hostile<E_##nm>(#nm); }
VERIF_GROUP(X)
#undef X
#elif VERIF_SET <= 4
// an engine that throws at its n-th call from inside a distribution
struct ThrowEng { typedef u32 result_type; static u32 (min)() { return 0; } static u32 (max)() { return 0xffffffffu; } H::Rng r; u64 left; u32 operator()() { if (!left--) throw Boom(); return (u32)r.next(); } };
struct Thrower { template<class D> void operator()(const D& d0, const Info& i) const {
  H::Rng r = H::rng(H::hash(i.name));
  for (u64 at = 0; at < H::n(12, 40); ++at) {
    D d(d0); ThrowEng e = { H::Rng(r.next()), at }; try { for (int k = 0; k < 60; ++k) d(e); } catch (Boom&) { H::event("engines that threw"); }
    ThrowEng e2 = { H::Rng(5), ~0ull >> 1 }, e3 = e2; for (int k = 0; k < 5; ++k) d(e2);
    d.reset(); D f(d0); e2 = e3; for (int k = 0; k < 20; ++k) { auto x = d(e2); auto y = f(e3); CHECK(digest(x) == digest(y), H::cat("thrown/", i.name), "after an exception of the engine and reset() value ", k, " differs from a fresh distribution's"); H::seen(digest(x)); }
  }
} };
SCEN("throwing engine") { Thrower f;
#if VERIF_SET == 1
  cont1<T>(f);
#elif VERIF_SET == 2
  cont2<T>(f);
#elif VERIF_SET == 3
  counting<int, T>(f);
#else
  discrete<int64_t, T>(f); for (int d : { 1, 2, 3, 4, 7 }) { CASE(sphere, -1, 1, (ld)d) f(br::uniform_on_sphere<T>(d), i); }
#endif
}
// random parameters over many orders of magnitude, hostile engines
#include "src.hpp"
struct Sweep { H::Rng r; u64 draws = 0; explicit Sweep(u64 s) : r(s) {}
  T lg(double a, double b) { return (T)std::exp(std::log(a) + r.unit() * (std::log(b) - std::log(a))); }
  T any(double a) { return (r.coin() ? 1 : -1) * lg(a * 1e-6, a); }
  template<class D> void go(const D& d0, int n = 60) { Src src; src.mode = 1 + (int)r.below(7); H::Rng q(r.next()); src.rng = &q; auto e = make<u32>(src, 0u, 0xffffffffu); D d(d0); u64 h = 0; for (int k = 0; k < n; ++k) h = H::mix(h, digest(d(e))); auto w = make<double>(src, 0.0, 1.0); for (int k = 0; k < n / 2; ++k) h = H::mix(h, digest(d(w))); draws += n + n / 2; H::seen(h); }
  std::vector<T> ws(std::size_t n, bool pos = false) { std::vector<T> v(n); for (auto& x : v) x = !pos && r.below(4) == 0 ? (T)0 : lg(1e-3, 1e3); v[r.below(n)] = 1; return v; }
  std::vector<T> inc(std::size_t n) { std::vector<T> v(n); T x = any(10); for (auto& y : v) { y = x; x += lg(0.01, 10); } return v; }
  void one() {
#if VERIF_SET == 1
    T a = any(1e3), b = a + lg(1e-2, 1e6); go(br::uniform_real_distribution<T>(a, b)); go(br::exponential_distribution<T>(lg(1e-6, 1e6))); go(br::laplace_distribution<T>(a, lg(1e-3, 1e3))); go(br::extreme_value_distribution<T>(a, lg(1e-3, 1e3))); go(br::weibull_distribution<T>(lg(1e-2, 1e2), lg(1e-3, 1e3))); go(br::cauchy_distribution<T>(a, lg(1e-3, 1e3)));
    T c = a + (T)r.unit() * (b - a); if (c > b) c = b; go(br::triangle_distribution<T>(a, c, b)); std::size_t n = 1 + r.below(20); auto x = inc(n + 1); auto w = ws(n); go(br::piecewise_constant_distribution<T, T>(x.begin(), x.end(), w.begin())); auto v = ws(n + 1); go(br::piecewise_linear_distribution<T>(x.begin(), x.end(), v.begin()));
#elif VERIF_SET == 2
    go(br::normal_distribution<T>(any(1e3), lg(1e-3, 1e3))); go(br::lognormal_distribution<T>(any(3), lg(1e-3, 3))); go(br::gamma_distribution<T>(lg(1e-2, 1e4), lg(1e-3, 1e3))); go(br::chi_squared_distribution<T>(lg(1e-1, 1e4))); go(br::student_t_distribution<T>(lg(0.3, 1e4))); go(br::fisher_f_distribution<T>(lg(0.3, 1e3), lg(0.3, 1e3))); go(br::beta_distribution<T>(lg(1e-1, 1e3), lg(1e-1, 1e3))); go(br::non_central_chi_squared_distribution<T>(lg(0.1, 1e3), lg(0.1, 1e3))); std::size_t n = 1 + r.below(10); auto p = ws(n, true), q = ws(n, true); go(br::hyperexponential_distribution<T>(p.begin(), p.end(), q.begin(), q.end()));
#elif VERIF_SET == 3
    int t = (int)r.below(4) ? (int)lg(1, 500) : (int)lg(1, 1e9); T p = r.coin() ? (T)r.unit() : r.coin() ? lg(1e-8, 1) : 1 - lg(1e-6, 1); if (p > 1) p = 1; go(br::binomial_distribution<int, T>(t, p), 150); { int t2 = (int)lg(300, 1e6); go(br::binomial_distribution<int, T>(t2, std::min<T>(1, lg(11, 60) / t2)), 400); T m2 = 1 - std::min<T>(1, lg(11, 60) / t2); go(br::binomial_distribution<int, T>(t2, m2), 400); }
    go(br::poisson_distribution<int, T>(lg(1e-3, 1e3)), 150); go(br::poisson_distribution<int, T>(lg(9, 40)), 400); go(br::poisson_distribution<long long, T>(lg(1, 1e12))); T g = lg(1e-4, 1); if (g >= 1) g = (T)0.5; go(br::geometric_distribution<int, T>(g)); go(br::bernoulli_distribution<T>(g)); go(br::negative_binomial_distribution<int, T>((int)r.below(100), std::max(g, (T)0.01)));
#else
    auto w = ws(1 + r.below(300)); go(br::discrete_distribution<int, T>(w.begin(), w.end())); go(br::discrete_distribution<unsigned char, T>(w.begin(), w.begin() + std::min<std::size_t>(w.size(), 200)) ); std::vector<unsigned> iw; for (std::size_t k = 1 + r.below(40); k--;) iw.push_back((unsigned)(r.next() >> (40 + r.below(24)))); iw.push_back(1); go(br::discrete_distribution<int, unsigned>(iw.begin(), iw.end())); go(br::uniform_on_sphere<T>(1 + (int)r.below(20)), 20);
    i64 a = (i64)r.next() >> r.below(64), b = (i64)r.next() >> r.below(64); if (a > b) std::swap(a, b); go(br::uniform_int_distribution<i64>(a, b)); int c = (int)r.next() >> r.below(32), d = (int)r.next() >> r.below(32); if (c > d) std::swap(c, d); go(br::uniform_int_distribution<int>(c, d)); go(br::uniform_int_distribution<short>((short)std::min((short)c, (short)d), std::max((short)c, (short)d))); go(br::uniform_smallint<int>(c, c + (int)std::min<i64>((i64)d - c, r.below(100000)))); go(boost::uniform_int<i64>(a, b));
#endif
  }
};
SCEN("sweep 0") { Sweep s(H::rng(0).next()); for (u64 k = H::n(3000, 40000); k--;) { s.one(); H::eval(); } H::event("draws with random parameters", s.draws); H::sample("random parameters, hostile engines"); }
SCEN("sweep 1") { Sweep s(H::rng(1).next()); for (u64 k = H::n(3000, 40000); k--;) { s.one(); H::eval(); } H::event("draws with random parameters", s.draws); }
// damaged text into distributions
struct Damager { template<class D> void operator()(const D& d0, const Info& i) const {
  H::Rng r = H::rng(H::hash(i.name)); std::ostringstream o; o << d0; const std::string s = o.str(); if (s.empty()) return;
  for (u64 j = 0; j < H::n(15, 150); ++j) { std::string t = s; if (j % 2) t.resize(r.below(s.size())); else t[r.below(s.size())] = 'x'; D d(d0); br::mt19937 m; d(m); std::istringstream is(t); is >> d; H::event(is ? "texts read" : "texts refused"); H::eval(); if (!is) for (int k = 0; k < 10; ++k) d(m); H::seen(t); }
} };
SCEN("damaged text") { Damager f;
#if VERIF_SET == 1
  cont1<T>(f);
#elif VERIF_SET == 2
  cont2<T>(f);
#elif VERIF_SET == 3
  counting<int, T>(f);
#else
  discrete<int64_t, T>(f);
#endif
}
#else
// quasi-random engines: to the end of the sequence and beyond, damaged text, unsupported dimensions
template<class Q> void qhostile(const char* n, std::initializer_list<std::size_t> dims, std::size_t maxdim) {
  for (std::size_t d : dims) { H::Rng r = H::rng(H::hash(n) + d);
    std::ostringstream o; { Q q(d); q.discard(d + 1); o << q; } const std::string s = o.str();
    for (u64 j = 0; j < H::n(40, 400); ++j) { std::string t = s; if (j % 3 == 0) t.resize(r.below(s.size())); else if (j % 3 == 1) t[r.below(s.size())] = "0123456789x- "[r.below(13)]; else { std::vector<std::string> w; std::istringstream is(t); std::string x; while (is >> x) w.push_back(x); const char* b[] = { "0", "1", "7", "99999999999999999999", "-1", "18446744073709551615", "4294967295", "x" }; w[r.below(w.size())] = b[r.below(8)]; t.clear(); for (auto& y : w) t += y + " "; }
      Q q(d); for (u64 k = r.below(5); k--;) q(); try { std::istringstream is(t); is >> q; H::event(is ? "texts read" : "texts refused"); for (int k = 0; k < 50; ++k) q(); q.discard(7); q(); } catch (std::range_error&) {} catch (std::invalid_argument&) {} q.seed(); q(); H::eval(); H::seen(t); }
    for (u64 p : { ~0ull, ~0ull >> 1, 0xffffffffull, 0x7fffffffull, 0xffffull, 12345678901ull }) for (u64 b = 0; b < 4; ++b) { Q q(d); try { q.discard(p - b); q(); H::event("far discards"); } catch (std::range_error&) { H::event("discards refused"); } try { q.seed(p - b); q(); q.discard(p - b); q(); } catch (std::range_error&) { H::event("seeds refused"); } for (int k = 0; k < 20; ++k) try { q(); } catch (std::range_error&) {} q.seed(); q(); H::eval(); }
  }
  for (std::size_t d : { (std::size_t)0, maxdim, maxdim + 1, maxdim + 2, (std::size_t)100000, ~(std::size_t)0 }) { try { Q q(d); for (std::size_t k = 0; k < 2 * d; ++k) q(); H::event("dimensions accepted"); } catch (std::invalid_argument&) { H::event("dimensions refused"); } catch (std::bad_alloc&) {} catch (std::length_error&) {} H::eval(); }
}
SCEN("hostile sobol") { qhostile<br::sobol>("sobol", { 1, 2, 7, 300 }, 3667); } SCEN("hostile niederreiter") { qhostile<br::niederreiter_base2>("niederreiter", { 1, 2, 7, 300 }, 4720); }
SCEN("hostile faure") { qhostile<br::faure>("faure", { 1, 2, 7, 100 }, 1117); }
SCEN("hostile sobol 16") { qhostile<br::sobol_engine<std::uint16_t, 16u>>("sobol16", { 1, 3, 40 }, 3667); } SCEN("hostile niederreiter 16") { qhostile<br::niederreiter_base2_engine<std::uint16_t, 16u>>("niederreiter16", { 1, 3, 40 }, 4720); }
SCEN("hostile faure 16") { qhostile<br::faure_engine<double, std::uint16_t>>("faure16", { 1, 3, 40 }, 1117); }
#endif
#endif
