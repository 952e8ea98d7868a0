// P26 wrappers and legacy interfaces.  VERIF_PART 1: variate_generator over
// every distribution (VERIF_T, VERIF_FAM); 2: integer adapter and the old
// uniform, unit-interval, geometric and log-normal classes; 3: old engines.
#define VERIF_NO_CDF
#include <boost/random/uniform_01.hpp>
#if VERIF_PART == 1
#include "dists.hpp"
#else
#include "h.hpp"
#include "src.hpp"
namespace br = boost::random; typedef long double ld;
template<class T> std::string tname() { return std::is_floating_point<T>::value ? H::cat("real", (u64)sizeof(T)) : H::cat(std::is_signed<T>::value ? "int" : "uint", (u64)(8 * sizeof(T))); }
#endif
#include <boost/random.hpp>
#include <boost/random/variate_generator.hpp>
#include <boost/random/random_number_generator.hpp>
#include <algorithm>
#include <memory>
// an engine that records which object was called
struct Rec { typedef u32 result_type; u64 s = 1; u64 calls = 0; Rec* self = this; Rec() {} explicit Rec(u64 x) : s(x) {} Rec(const Rec& o) : s(o.s), calls(o.calls), self(this) {} Rec& operator=(const Rec& o) { s = o.s; calls = o.calls; return *this; }
  static constexpr u32 min() { return 0; } static constexpr u32 max() { return 0xffffffffu; } u32 operator()() { ++calls; s = s * 6364136223846793005ull + 1442695040888963407ull; return (u32)(s >> 32); }
  friend bool operator==(const Rec& a, const Rec& b) { return a.s == b.s && a.calls == b.calls; } };
struct E8 { typedef std::uint8_t result_type; u64 s; static constexpr result_type min() { return 0; } static constexpr result_type max() { return 255; } result_type operator()() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (result_type)(s >> 33); } friend bool operator==(const E8& a, const E8& b) { return a.s == b.s; } };
struct ES { typedef std::int32_t result_type; u64 s; static constexpr result_type min() { return -1000000; } static constexpr result_type max() { return 777777; } result_type operator()() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (result_type)(min() + (i64)((s >> 20) % 1777778)); } friend bool operator==(const ES& a, const ES& b) { return a.s == b.s; } };
template<class F> void feeds(u64 seed, F&& f) {
  f(Rec(seed), "recording engine"); f(br::mt19937((u32)seed), "mt19937"); f(br::mt19937_64(seed), "mt19937_64"); f(br::minstd_rand((u32)(seed % 2147483646 + 1)), "minstd_rand"); f(br::rand48((u32)seed), "rand48"); f(br::lagged_fibonacci607((u32)seed), "lagged_fibonacci607"); f(br::ranlux24((u32)seed | 1), "ranlux24"); f(E8{ seed }, "8 bit engine"); f(ES{ seed }, "signed engine");
}
template<class V> bool same(const V& a, const V& b) { if constexpr (std::is_floating_point<V>::value) return a == b || (a != a && b != b); else return a == b; }
template<class V> std::string sv(const V& v) { if constexpr (std::is_arithmetic<V>::value) return H::str(v); else return "vector"; }

#if VERIF_PART == 1
typedef VERIF_T T;
template<class D, class = void> struct HasParam : std::false_type {}; template<class D> struct HasParam<D, decltype((void)std::declval<D&>().param())> : std::true_type {};
struct Any { template<class F> void operator()(F&& f) const {
#if VERIF_FAM == 1
  cont1<T>(f);
#elif VERIF_FAM == 2
  cont2<T>(f);
#elif VERIF_FAM == 3
  counting<int, T>(f); discrete<int64_t, T>(f); if constexpr (sizeof(T) == 4) { counting<int16_t, T>(f); discrete<short, T>(f); }
#else
  for (int d : { 0, 1, 2, 3, 5 }) { CASE(sphere, -1, 1, (ld)d) f(br::uniform_on_sphere<T>(d), i); f(br::uniform_on_sphere<T, std::vector<T>>(d), i); }
  { CASE(uniform_01, 0, 1) f(br::uniform_01<T>(), i); }
  { CASE(uniform_real_old, -2, 5) f(boost::uniform_real<T>(-2, 5), i); }
  { CASE(uniform_int_old, -2, 50) f(boost::uniform_int<int>(-2, 50), i); f(boost::uniform_int<u64>(2, 50), i); f(boost::uniform_smallint<int>(-2, 50), i); }
  for (T p : { (T)0.25, (T)0.5, (T)0.9 }) { CASE(geometric_old, 1, INF, (ld)p) f(boost::geometric_distribution<int, T>(p), i); }
  for (T p : { (T)0.25, (T)1, (T)9 }) { CASE(lognormal_old, 0, INF, (ld)p) f(boost::lognormal_distribution<T>(p, 2), i); }
#endif
} };
template<class D, class G, class G2, class E> void bound(const std::string& form, G& g, E& seen, const D& d0, const E& e0, const std::string& what, bool withparam, H::Rng& r, G2* other) {
  // g: the wrapper; seen: the engine object that must advance
  E e = e0; D d = d0; const G& cg = g;
  if constexpr (std::is_same<G2, G>::value) (void)other;
  CHECK(&g.engine() == &seen && &cg.engine() == &seen, form + "/engine", what, ": engine() is not the bound engine");
  CHECK(&g.distribution() == &cg.distribution(), form + "/distribution", what, ": two distributions");
  if constexpr (std::is_same<E, Rec>::value) { seen.calls = 0; e.calls = 0; }
  int n = 10 + (int)r.below(30);
  for (int k = 0; k < n; ++k) {
    auto x = g(); auto y = d(e);
    CHECK_RET(same(x, y), form + "/value", what, ": value ", k, " is ", sv(x), ", the distribution applied to the engine gives ", sv(y));
    CHECK_RET(seen == e, form + "/advance", what, ": after value ", k, " the bound engine is not where the distribution leaves it");
    CHECK_RET(cg.engine() == e, form + "/engine", what, ": engine() after value ", k);
    if constexpr (std::is_same<E, Rec>::value) CHECK_RET(seen.self == &seen && seen.calls == e.calls, form + "/calls", what, ": ", seen.calls, " calls, expected ", e.calls);
    H::event("values");
  }
  if constexpr (HasParam<D>::value) if (withparam) {
    auto p = d0.param();
    for (int k = 0; k < 5; ++k) { auto x = g(p); auto y = d(e, p); CHECK_RET(same(x, y) && seen == e, form + "/with parameters", what, ": call with parameters gives ", sv(x), " instead of ", sv(y)); H::event("values with parameters"); }
    for (int k = 0; k < 5; ++k) { auto x = g(); auto y = d(e); CHECK_RET(same(x, y) && seen == e, form + "/after parameters", what, ": ", sv(x), " instead of ", sv(y)); }
  }
}
template<class A, class B, class = void> struct HasMin : std::false_type {}; template<class A, class B> struct HasMin<A, B, decltype((void)(std::declval<const B&>().min)())> : std::true_type {};
struct Each { template<class D> void operator()(const D& d0, const Info& i) const {
  if constexpr (std::is_same<D, D>::value) {
    H::Rng r = H::rng(H::hash(i.name));
    feeds(r.next() | 1, [&](auto e0, const char* en) {
      typedef decltype(e0) E; std::string what = i.name + " on " + en;
      if (i.heavy && sizeof(typename E::result_type) == 1) return;
      H::seen(what);
      { E orig = e0; br::variate_generator<E, D> g(orig, d0); static_assert(std::is_same<typename br::variate_generator<E, D>::engine_value_type, E>::value, "");
        bound<D>("by value", g, g.engine(), d0, e0, what, true, r, &g);
        CHECK(orig == e0, "by value/original", what, ": the original engine moved");
        E at = g.engine(); D dd = g.distribution(); br::variate_generator<E, D> c(g), a(e0, d0); a = g;
        for (int k = 0; k < 8; ++k) { auto x = g(); auto y = c(); auto w = a(); E at2 = at; D d2 = dd; auto z = d2(at2); if (k == 0) CHECK(same(x, z), "by value/parts", what, ": the exposed parts give ", sv(z), ", the wrapper ", sv(x)); CHECK_RET(same(x, y) && same(x, w), "by value/copy", what, ": a copy gives ", sv(y), " or ", sv(w), " instead of ", sv(x)); }
        CHECK(g.engine() == c.engine() && &g.engine() != &c.engine() && a.engine() == g.engine(), "by value/copy", what, ": copies share or lose the engine");
        c(); c(); if constexpr (!std::is_same<E, void>::value) if (i.one) CHECK(!(c.engine() == g.engine()), "by value/copy", what, ": drawing from a copy moved the original");
        // exposed engine and distribution can be changed in place
        g.engine() = e0; g.distribution() = d0; E e = e0; D d = d0; for (int k = 0; k < 4; ++k) { auto x = g(); auto y = d(e); CHECK(same(x, y), "by value/rewound", what, ": ", sv(x), " instead of ", sv(y)); } }
      { E orig = e0; br::variate_generator<E&, D> g(orig, d0); bound<D>("by reference", g, orig, d0, e0, what, true, r, &g);
        E save = orig; D dd = g.distribution(); br::variate_generator<E&, D> c(g); CHECK(&c.engine() == &orig, "by reference/copy", what, ": a copy is bound to another engine");
        // two wrappers on one engine share it
        D d1 = dd, d2 = dd; for (int k = 0; k < 6; ++k) { auto x = g(); auto y = d1(save); CHECK_RET(same(x, y), "by reference/shared", what, ": ", sv(x), " instead of ", sv(y)); x = c(); y = d2(save); CHECK_RET(same(x, y) && save == orig, "by reference/shared", what, ": second wrapper gives ", sv(x), " instead of ", sv(y)); } }
      { E orig = e0; br::variate_generator<E*, D> g(&orig, d0); bound<D>("by pointer", g, orig, d0, e0, what, true, r, &g);
        E o2 = e0; D d9 = g.distribution(); br::variate_generator<E*, D> h(&o2, d0); h = g; CHECK(&h.engine() == &orig && o2 == e0, "by pointer/assign", what, ": assignment is bound to another engine"); E s = orig; auto x = h(); auto y = d9(s); CHECK(same(x, y) && s == orig, "by pointer/assign", what, ": ", sv(x), " instead of ", sv(y)); }
      if constexpr (HasMin<E, D>::value) if constexpr (!std::is_same<typename D::result_type, std::vector<T>>::value) { const br::variate_generator<E, D> g(e0, d0); auto lo = (g.min)(), lo2 = (d0.min)(); auto hi = (g.max)(), hi2 = (d0.max)(); CHECK(same(lo, lo2) && same(hi, hi2), "bounds", what, ": min ", sv(lo), " max ", sv(hi)); }
    });
    // the engine of a shared seed serves several distributions in turn
    br::mt19937 m(7), m2(7); boost::variate_generator<br::mt19937&, D> g1(m, d0); boost::variate_generator<br::mt19937*, br::uniform_int_distribution<>> g2(&m, br::uniform_int_distribution<>(1, 6)); D d = d0; br::uniform_int_distribution<> u(1, 6);
    for (int k = 0; k < 10; ++k) { auto x = g1(); auto y = d(m2); CHECK_RET(same(x, y), "mixed/value", i.name, ": ", sv(x), " instead of ", sv(y)); int a = g2(), b = u(m2); CHECK_RET(a == b && m == m2, "mixed/value", i.name, ": die ", a, " instead of ", b); }
    if (r.below(9) == 0) H::sample(i.name);
  }
} };
SCEN(std::string("bound generators " + tname<T>() + " family " + H::cat(VERIF_FAM)).c_str()) { u64 reps = H::n(3, 20); for (u64 k = 0; k < reps; ++k) { H::st().seed = H::mix(H::st().seed, k); Any()(Each()); } }
#endif

#if VERIF_PART == 2
template<class I> void adapter() {
  H::Rng r = H::rng(); typedef std::numeric_limits<I> L;
  feeds(r.next() | 1, [&](auto e0, const char* en) {
    typedef decltype(e0) E; E e = e0, ref = e0; boost::random_number_generator<E, I> g(e); boost::random_number_generator<E, I> gc(g);
    std::vector<I> ns = { 1, 2, 3, 7, 10, 100, 127, L::max(), (I)(L::max() - 1), (I)(L::max() / 2), (I)(L::max() / 2 + 1), (I)(L::max() / 3 * 2) }; for (int k = 1; k < L::digits; ++k) { ns.push_back((I)((I)1 << k)); ns.push_back((I)(((I)1 << k) - 1)); ns.push_back((I)(((I)1 << k) + 1)); }
    for (int k = 0; k < 100; ++k) ns.push_back((I)(1 + (r.next() >> r.below(63)) % (u64)L::max()));
    for (I n : ns) { if (n < 1) continue; for (int k = 0; k < 20; ++k) { I x = k & 1 ? gc(n) : g(n); CHECK(x >= 0 && x < n, "adapter/range", en, ": ", x, " for n = ", n); I y = br::uniform_int_distribution<I>(0, (I)(n - 1))(ref); CHECK_RET(x == y && e == ref, "adapter/value", en, ": ", x, " instead of ", y, " for n = ", n); H::event("adapter values"); } H::seen(H::cat(en, n)); }
    // counts
    for (I n : { (I)1, (I)2, (I)3, (I)6, (I)10, (I)52, (I)100 }) { std::vector<u64> c((std::size_t)n); u64 N = (u64)n * 2000; for (u64 k = 0; k < N; ++k) { I x = g(n); if (x >= 0 && x < n) ++c[(std::size_t)x]; else { H::viol("adapter/range", H::cat(en, ": ", x, " for n = ", n)); return; } }
      double s = 0; for (u64 x : c) s += ((double)x - 2000) * ((double)x - 2000) / 2000; double df = (double)n - 1; CHECK(df == 0 ? s == 0 : (s - df) / std::sqrt(2 * df + 1) < 9, "adapter/uniform", en, ": chi-square ", s, " for ", df, " degrees of freedom"); H::event("adapter counts", N); }
    // shuffling with the adapter: a permutation, the same as Fisher-Yates on the reference engine, and every order equally often
    std::vector<int> v(50), w; for (int k = 0; k < 50; ++k) v[(std::size_t)k] = k; w = v; E a = e0, b = e0; boost::random_number_generator<E, I> sg(a);
    for (std::size_t k = 1; k < v.size(); ++k) { std::swap(v[k], v[(std::size_t)sg((I)(k + 1))]); std::swap(w[k], w[(std::size_t)br::uniform_int_distribution<I>(0, (I)k)(b)]); }
    CHECK(v == w && a == b, "adapter/shuffle", en, ": different permutation");
    u64 cnt[24] = {}; for (int k = 0; k < 48000; ++k) { int q[4] = { 0, 1, 2, 3 }; for (int j = 1; j < 4; ++j) std::swap(q[j], q[(std::size_t)sg((I)(j + 1))]); int code = 0; for (int j = 0; j < 4; ++j) { int l = 0; for (int m = j + 1; m < 4; ++m) l += q[m] < q[j]; code = code * (4 - j) + l; } ++cnt[code]; }
    double s = 0; for (u64 x : cnt) s += ((double)x - 2000) * ((double)x - 2000) / 2000; CHECK(s < 23 + 10 * std::sqrt(46.0), "adapter/permutations", en, ": chi-square ", s, " for 23 degrees of freedom");
  });
}
template<class I> void old_int() {
  H::Rng r = H::rng(); typedef std::numeric_limits<I> L; typedef boost::uniform_int<I> D; typedef br::uniform_int_distribution<I> M;
  std::vector<std::pair<I, I>> ps = { { 0, 9 }, { 0, 0 }, { L::min(), L::max() }, { L::min(), L::min() }, { L::max(), L::max() }, { 1, 6 }, { (I)(L::max() / 2), L::max() } }; for (int k = 0; k < 60; ++k) { I a = (I)r.next(), b = (I)r.next(); if (a > b) std::swap(a, b); if (r.coin()) b = (I)(a + (I)(((u64)b - (u64)a) >> r.below(sizeof(I) * 8 - 1))); if (a <= b) ps.push_back({ a, b }); }
  { D d; CHECK(d.a() == 0 && d.b() == 9 && (d.min)() == 0 && (d.max)() == 9, "uniform_int/default", "default parameters ", d.a(), " ", d.b()); D e(3); CHECK(e.a() == 3 && e.b() == 9, "uniform_int/default", "one argument gives ", e.a(), " ", e.b()); typename D::param_type p; CHECK(p.a() == 0 && p.b() == 9, "uniform_int/default", "default parameters ", p.a(), " ", p.b()); }
  for (auto p : ps) feeds(r.next() | 1, [&](auto e0, const char* en) {
    typedef decltype(e0) E; E e = e0, f = e0; D d(p.first, p.second); M m(p.first, p.second); std::string what = H::cat("[", p.first, ", ", p.second, "] on ", en); H::seen(what);
    CHECK(d.a() == p.first && d.b() == p.second && (d.min)() == p.first && (d.max)() == p.second && d.param().a() == p.first && d.param().b() == p.second, "uniform_int/accessors", what, ": a ", d.a(), " b ", d.b());
    D viap(d.param()), set; set.param(d.param()); const D& cd = d; CHECK(viap == d && set == d && !(set != d), "uniform_int/equal", what);
    for (int k = 0; k < 12; ++k) { I x = k < 4 ? d(e) : k < 8 ? cd(e) : k < 10 ? viap(e) : set(e), y = m(f); CHECK_RET(x == y && e == f, "uniform_int/value", what, ": ", x, " instead of ", y); H::event("old values"); }
    D other(0, 1); typename D::param_type pp(p.first, p.second); for (int k = 0; k < 4; ++k) { I x = other(e, pp), y = m(f); CHECK_RET(x == y && e == f, "uniform_int/parameters", what, ": ", x, " instead of ", y); }
    I n = (I)(1 + ((u64)p.second & (u64)L::max() ? ((u64)p.second & (u64)L::max()) % (u64)L::max() : 0)); for (int k = 0; k < 4; ++k) { I x = d(e, n), y = M(0, (I)(n - 1))(f); CHECK_RET(x == y && e == f && x >= 0 && x < n, "uniform_int/below n", what, ": ", x, " instead of ", y, " below ", n); }
    boost::variate_generator<E&, D> g(e, d); for (int k = 0; k < 4; ++k) { I x = g(n), y = M(0, (I)(n - 1))(f); CHECK_RET(x == y && e == f, "uniform_int/wrapped below n", what, ": ", x, " instead of ", y, " below ", n); x = g(); y = m(f); CHECK_RET(x == y && e == f, "uniform_int/wrapped", what, ": ", x, " instead of ", y); }
    CHECK((g.min)() == p.first && (g.max)() == p.second, "uniform_int/wrapped bounds", what);
    { std::stringstream s; s << d; D q; s >> q; CHECK(s && q == d && q.a() == d.a() && q.b() == d.b(), "uniform_int/stream", what, ": read back as ", q.a(), " ", q.b()); std::stringstream s2; s2 << d.param(); typename D::param_type t; s2 >> t; CHECK(s2 && t.a() == d.a() && t.b() == d.b(), "uniform_int/stream", what, ": parameters read back as ", t.a(), " ", t.b()); }
  });
}
template<class T> void old_real() {
  H::Rng r = H::rng(); typedef boost::uniform_real<T> D; typedef br::uniform_real_distribution<T> M;
  { D d; CHECK(d.a() == 0 && d.b() == 1, "uniform_real/default", "default parameters ", d.a(), " ", d.b()); typename D::param_type p; CHECK(p.a() == 0 && p.b() == 1, "uniform_real/default", "parameters"); D e(T(-3)); CHECK(e.a() == -3 && e.b() == 1, "uniform_real/default", "one argument gives ", e.a(), " ", e.b()); }
  for (int t = 0; t < 100; ++t) { T a = (T)((r.unit() - 0.5) * std::pow(10.0, (double)r.range(-20, 20))), b = a + (T)std::fabs((double)a) * (T)r.unit() * (T)(t & 1 ? 10 : 1e-3); if (!(a < b)) continue;
    feeds(r.next() | 1, [&](auto e0, const char* en) {
      typedef decltype(e0) E; E e = e0, f = e0; D d(a, b); M m(a, b); std::string what = H::cat("[", a, ", ", b, ") on ", en); H::seen(what);
      CHECK(d.a() == a && d.b() == b && (d.min)() == a && (d.max)() == b && d.param().a() == a && d.param().b() == b, "uniform_real/accessors", what);
      D viap(d.param()), set; set.param(d.param()); CHECK(viap == d && set == d, "uniform_real/equal", what);
      for (int k = 0; k < 10; ++k) { T x = k < 6 ? d(e) : k < 8 ? viap(e) : set(e), y = m(f); CHECK_RET(x == y && e == f && x >= a && x < b, "uniform_real/value", what, ": ", x, " instead of ", y); H::event("old values"); }
      D other(5, 6); for (int k = 0; k < 4; ++k) { T x = other(e, d.param()), y = m(f); CHECK_RET(x == y && e == f, "uniform_real/parameters", what, ": ", x, " instead of ", y); }
      boost::variate_generator<E, D> g(e, d); for (int k = 0; k < 4; ++k) { T x = g(), y = m(f); CHECK_RET(x == y, "uniform_real/wrapped", what, ": ", x, " instead of ", y); }
    }); }
}
template<class T> void old_01() {
  H::Rng r = H::rng();
  for (int t = 0; t < 20; ++t) feeds(r.next() | 1, [&](auto e0, const char* en) {
    typedef decltype(e0) E; br::uniform_01<T> m; std::string what = en; H::seen(H::cat(what, t));
    { E o = e0, f = e0; boost::uniform_01<E, T> u(o); CHECK((u.min)() == 0 && (u.max)() == 1, "unit/bounds", what); for (int k = 0; k < 200; ++k) { T x = u(), y = m(f); CHECK_RET(x >= 0 && x < 1, "unit/range", what, ": ", x); CHECK_RET(x == y && u.base() == f, "unit/by value", what, ": ", x, " instead of ", y); H::event("old values"); if (k == 100) u.reset(); } CHECK(o == e0, "unit/original", what, ": the original engine moved");
      boost::uniform_01<E, T> c(u), d(e0); d = u; for (int k = 0; k < 20; ++k) { T x = u(), y = c(), z = d(), w = m(f); CHECK_RET(x == y && x == z && x == w, "unit/copy", what, ": ", x, " ", y, " ", z); } }
    { E o = e0, f = e0; boost::uniform_01<E&, T> u(o); CHECK(&u.base() == &o, "unit/base", what); for (int k = 0; k < 100; ++k) { T x = u(), y = m(f); CHECK_RET(x == y && o == f, "unit/by reference", what, ": ", x, " instead of ", y); H::event("old values"); } }
    { E o = e0, f = e0; boost::uniform_01<E*, T> u(&o); CHECK(&u.base() == &o, "unit/base", what); for (int k = 0; k < 100; ++k) { T x = u(), y = m(f); CHECK_RET(x == y && o == f, "unit/by pointer", what, ": ", x, " instead of ", y); H::event("old values"); } }
    if constexpr (!std::is_same<E, Rec>::value && !std::is_same<E, E8>::value && !std::is_same<E, ES>::value) { E o = e0; boost::uniform_01<E, T> u(o), v((E())); u(); u(); std::stringstream s; s << u; s >> v; CHECK(bool(s), "unit/stream", what); for (int k = 0; k < 10; ++k) { T x = u(), y = v(); CHECK_RET(x == y, "unit/stream", what, ": restored object gives ", y, " instead of ", x); } }
  });
  // engines of extreme ranges: the old class divides by its own copy of the range
  auto ext = [&](auto tag) { typedef decltype(tag) B; typedef std::numeric_limits<B> L; const std::pair<B, B> rs[] = { { L::min(), L::max() }, { 0, L::max() }, { (B)(L::max() - 1), L::max() }, { L::min(), (B)(L::min() + 1) }, { 0, 1 }, { 5, 104 }, { L::min(), 0 } };
    for (auto q : rs) { if (q.first == q.second) continue; Src s1, s2; H::Rng a(r.next()), b = a; s1.rng = &a; s2.rng = &b; s1.mode = s2.mode = 5; auto x = make<B>(s1, q.first, q.second); auto y = make<B>(s2, q.first, q.second); typedef decltype(x) E; boost::uniform_01<E, T> u(x); br::uniform_01<T> m; for (int k = 0; k < 300; ++k) { T v = u(), w = m(y); CHECK_RET(v == w && v >= 0 && v < 1, "unit/extreme ranges", "engine range [", q.first, ", ", q.second, "]: ", v, " instead of ", w); H::event("extreme ranges"); } } };
  ext((std::int8_t)0); ext((std::uint8_t)0); ext((std::int16_t)0); ext((std::uint16_t)0); ext((std::int32_t)0); ext((std::uint32_t)0); ext((std::int64_t)0); ext((std::uint64_t)0);
}
template<class I, class T> void old_geo() {
  H::Rng r = H::rng();
  std::vector<T> ps = { (T)0.5, (T)0.25, (T)0.75, (T)0.125, (T)0.9, (T)0.99, (T)1e-3, (T)(1 - 1e-6) }; for (int k = 0; k < 20; ++k) ps.push_back((T)(0.001 + 0.998 * r.unit()));
  { boost::geometric_distribution<I, T> d; CHECK(d.p() == (T)0.5, "geometric/default", "p is ", d.p()); }
  for (T p : ps) feeds(r.next() | 1, [&](auto e0, const char* en) {
    typedef decltype(e0) E; E e = e0, f = e0; boost::geometric_distribution<I, T> d(p); br::geometric_distribution<I, T> m(1 - p); std::string what = H::cat("p = ", p, " on ", en); H::seen(what); const auto& cd = d;
    CHECK(std::fabs((double)d.p() - (double)p) <= 2 * (double)std::numeric_limits<T>::epsilon(), "geometric/p", what, ": p() = ", d.p());
    for (int k = 0; k < 50; ++k) { I x = k & 1 ? d(e) : cd(e), y0 = m(f), y = y0 == std::numeric_limits<I>::max() ? y0 : (I)(y0 + 1); CHECK_RET(x == y && e == f && x >= 1, "geometric/value", what, ": ", x, " instead of ", y); H::event("old values"); if (k == 20) d.reset(); }
    std::stringstream s; s.precision(30); s << d; boost::geometric_distribution<I, T> q; s >> q; CHECK(bool(s) && std::fabs((double)q.p() - (double)d.p()) <= 2 * (double)std::numeric_limits<T>::epsilon(), "geometric/stream", what, ": read back as ", q.p());
    boost::geometric_distribution<I, T> half((T)0.5), q2; std::stringstream s3; s3 << half; s3 >> q2; E e2 = e, e3 = e; for (int k = 0; k < 5; ++k) CHECK(half(e2) == q2(e3), "geometric/stream", what, ": restored object differs");
  });
  // p(i) = (1 - p) p^(i-1)
  for (T p : { (T)0.5, (T)0.3, (T)0.8 }) { boost::geometric_distribution<I, T> d(p); br::mt19937 e((u32)r.next()); const int N = 200000; std::vector<u64> c(8); for (int k = 0; k < N; ++k) { I x = d(e); ++c[(std::size_t)std::min<i64>((i64)x, 8) - 1]; } double s = 0; for (int j = 0; j < 8; ++j) { double pr = j < 7 ? (1 - (double)p) * std::pow((double)p, j) : std::pow((double)p, 7), ex = N * pr; s += ((double)c[(std::size_t)j] - ex) * ((double)c[(std::size_t)j] - ex) / ex; } CHECK(s < 7 + 12 * std::sqrt(14.0), "geometric/law", "p = ", p, ": chi-square ", s); H::event("old counts", N); }
  // values at the top of the result type
  for (T p : { (T)1 - std::numeric_limits<T>::epsilon(), (T)1 - std::numeric_limits<T>::epsilon() / 2 }) { boost::geometric_distribution<I, T> d(p); br::mt19937 e((u32)r.next()); for (int k = 0; k < 2000; ++k) { I x = d(e); CHECK_RET(x >= 1, "geometric/top", "p = ", p, ": ", x); } H::event("top values", 2000); }
}
template<class T> void old_log() {
  H::Rng r = H::rng();
  { boost::lognormal_distribution<T> d; CHECK(d.mean() == 1 && d.sigma() == 1, "lognormal/default", d.mean(), " ", d.sigma()); boost::lognormal_distribution<T> e(3); CHECK(e.mean() == 3 && e.sigma() == 1, "lognormal/default", e.mean(), " ", e.sigma()); }
  std::vector<std::pair<T, T>> ps = { { 1, 1 }, { 2, (T)0.5 }, { (T)0.1, 3 }, { 100, 7 }, { 1, (T)1e-3 } }; for (int k = 0; k < 20; ++k) ps.push_back({ (T)std::exp(6 * r.unit() - 3), (T)std::exp(6 * r.unit() - 3) });
  for (auto p : ps) feeds(r.next() | 1, [&](auto e0, const char* en) {
    typedef decltype(e0) E; E e = e0, f = e0; boost::lognormal_distribution<T> d(p.first, p.second); T mu = p.first, sg = p.second; std::string what = H::cat("(", mu, ", ", sg, ") on ", en); H::seen(what);
    CHECK(d.mean() == mu && d.sigma() == sg, "lognormal/parameters", what, ": ", d.mean(), " ", d.sigma());
    ld nm = std::log((ld)mu * mu / std::sqrt((ld)sg * sg + (ld)mu * mu)), ns = std::sqrt(std::log1p((ld)sg * sg / mu / mu)); br::normal_distribution<T> n;
    auto tol = [&](ld z) { return 64 * (ld)std::numeric_limits<T>::epsilon() * (1 + std::fabs(nm) + std::fabs(z) * ns * (1 + (ld)mu * mu / sg / sg)); };
    for (int k = 0; k < 60; ++k) { T z = n(f); T x = d(e); ld w = std::exp(z * ns + nm); CHECK_RET(e == f && x > 0 && std::fabs((ld)x - w) <= w * tol(z), "lognormal/value", what, ": ", x, " instead of ", w); H::event("old values"); if (k == 30) { d.reset(); n.reset(); } }
    std::stringstream s; s.precision(40); s << d; boost::lognormal_distribution<T> q(7, 7); s >> q; CHECK(bool(s) && q.mean() == mu && q.sigma() == sg, "lognormal/stream", what, ": read back as ", q.mean(), " ", q.sigma()); E e2 = e; for (int k = 0; k < 10; ++k) { T x = d(e), y = q(e2); CHECK_RET(x == y, "lognormal/stream", what, ": restored object gives ", y, " instead of ", x); }
    boost::lognormal_distribution<T> c(d); e2 = e; T x = d(e), y = c(e2); CHECK(x == y, "lognormal/copy", what);
  });
  // mean and standard deviation are the parameters
  for (std::pair<T, T> p : { std::pair<T, T>(1, (T)0.5), std::pair<T, T>(5, 2), std::pair<T, T>((T)0.3, (T)0.1) }) { boost::lognormal_distribution<T> d(p.first, p.second); br::mt19937 e((u32)r.next()); const int N = 400000; double s = 0, q = 0; for (int k = 0; k < N; ++k) { double x = (double)d(e); s += x; q += (x - p.first) * (x - p.first); } double m = s / N, sd = std::sqrt(q / N); CHECK(std::fabs(m - (double)p.first) < 9 * (double)p.second / std::sqrt((double)N), "lognormal/mean", "(", p.first, ", ", p.second, "): sample mean ", m); CHECK(std::fabs(sd / (double)p.second - 1) < 0.06, "lognormal/sigma", "(", p.first, ", ", p.second, "): sample deviation ", sd); H::event("old counts", N); }
}
SCEN("adapter short") { adapter<short>(); } SCEN("adapter int") { adapter<int>(); } SCEN("adapter unsigned") { adapter<unsigned>(); } SCEN("adapter long") { adapter<long>(); } SCEN("adapter uint64") { adapter<std::uint64_t>(); } SCEN("adapter int8") { adapter<signed char>(); } SCEN("adapter uint8") { adapter<unsigned char>(); } SCEN("adapter uint16") { adapter<unsigned short>(); }
SCEN("old uniform_int int") { old_int<int>(); } SCEN("old uniform_int short") { old_int<short>(); } SCEN("old uniform_int unsigned") { old_int<unsigned>(); } SCEN("old uniform_int int64") { old_int<std::int64_t>(); } SCEN("old uniform_int uint64") { old_int<std::uint64_t>(); } SCEN("old uniform_int uint16") { old_int<std::uint16_t>(); }
SCEN("old uniform_real float") { old_real<float>(); } SCEN("old uniform_real double") { old_real<double>(); } SCEN("old uniform_real long double") { old_real<long double>(); }
SCEN("old unit float") { old_01<float>(); } SCEN("old unit double") { old_01<double>(); } SCEN("old unit long double") { old_01<long double>(); }
SCEN("old geometric int double") { old_geo<int, double>(); } SCEN("old geometric int float") { old_geo<int, float>(); } SCEN("old geometric int64 double") { old_geo<std::int64_t, double>(); } SCEN("old geometric short double") { old_geo<short, double>(); } SCEN("old geometric uint64 long double") { old_geo<std::uint64_t, long double>(); }
SCEN("old lognormal float") { old_log<float>(); } SCEN("old lognormal double") { old_log<double>(); } SCEN("old lognormal long double") { old_log<long double>(); }
#endif

#if VERIF_PART == 3
typedef br::mersenne_twister<uint32_t, 32, 624, 397, 31, 0x9908b0df, 11, 7, 0x9d2c5680, 15, 0xefc60000, 18, 3346425566U> LMT;
typedef br::mersenne_twister<uint32_t, 32, 351, 175, 19, 0xccab8ee7, 11, 7, 0x31b6ab00, 15, 0xffe50000, 17, 0xa37d3c92> LMT11;
typedef br::subtract_with_carry<uint32_t, (1 << 24), 10, 24, 0> LSWC; typedef br::subtract_with_carry<uint32_t, (1u << 31), 7, 20, 0> LSWC31; typedef br::subtract_with_carry_01<double, 48, 10, 24> LSWC01;
typedef br::lagged_fibonacci<uint32_t, 32, 607, 273> LLF; typedef br::lagged_fibonacci_01<double, 48, 607, 273> LLF01;
typedef br::linear_congruential<int32_t, 16807, 0, 2147483647, 1043618065> LLCG; typedef br::inversive_congruential<int32_t, 9102, 2147483647 - 36884165, 2147483647, 0> LICG;
typedef br::linear_feedback_shift<uint32_t, 32, 31, 13, 12, 0> LFS; typedef br::linear_feedback_shift<uint32_t, 32, 29, 2, 4, 0> LFS2; typedef br::xor_combine<LFS, 0, LFS2, 0, 0> LX; typedef br::xor_combine<br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12>, 3, br::linear_feedback_shift_engine<uint32_t, 32, 29, 2, 4>, 1, 0> LX2;
typedef br::additive_combine<br::minstd_rand0, br::minstd_rand, 0> LAC; typedef br::discard_block<LSWC, 223, 24> LDB; typedef br::discard_block<br::ranlux24_base, 223, 23> LDB2; typedef br::shuffle_output<br::minstd_rand, 97, 139726> LSH; typedef br::shuffle_output<br::rand48, 16, 0> LSH48;
typedef br::mersenne_twister_engine<uint32_t, 32, 624, 397, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253> MMT;
typedef br::mersenne_twister_engine<uint32_t, 32, 351, 175, 19, 0xccab8ee7, 11, 0xffffffff, 7, 0x31b6ab00, 15, 0xffe50000, 17, 1812433253> MMT11;
typedef br::subtract_with_carry_engine<uint32_t, 24, 10, 24> MSWC; typedef br::subtract_with_carry_engine<uint32_t, 31, 7, 20> MSWC31; typedef br::subtract_with_carry_01_engine<double, 48, 10, 24> MSWC01;
typedef br::lagged_fibonacci_engine<uint32_t, 32, 607, 273> MLF; typedef br::lagged_fibonacci_01_engine<double, 48, 607, 273> MLF01; typedef br::linear_congruential_engine<int32_t, 16807, 0, 2147483647> MLCG; typedef br::inversive_congruential_engine<int32_t, 9102, 2147483647 - 36884165, 2147483647> MICG;
typedef br::linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> MFS; typedef br::xor_combine_engine<MFS, 0, br::linear_feedback_shift_engine<uint32_t, 32, 29, 2, 4>, 0> MX; typedef br::xor_combine_engine<MFS, 3, br::linear_feedback_shift_engine<uint32_t, 32, 29, 2, 4>, 1> MX2;
typedef br::additive_combine_engine<br::minstd_rand0, br::minstd_rand> MAC; typedef br::discard_block_engine<MSWC, 223, 24> MDB; typedef br::discard_block_engine<br::ranlux24_base, 223, 23> MDB2; typedef br::shuffle_order_engine<br::minstd_rand, 97> MSH; typedef br::shuffle_order_engine<br::rand48, 16> MSH48;
enum { SEQ = 1, GEN = 2 };
// a generator as a seed sequence: every word is one value
template<class G> struct GenSeq { G* g; explicit GenSeq(G& x) : g(&x) {} template<class It> void generate(It a, It b) { for (; a != b; ++a) *a = (*g)(); } };
// the old engine L must deliver the values of M after every operation
template<class L, class M> bool follow(L& l, M& m, const char* n, const std::string& what, int count = 200) {
  for (int k = 0; k < count; ++k) { auto x = l(); auto y = m(); if (!(x == y)) { H::viol(H::cat(n, "/", what), H::cat("value ", k, " is ", x, ", the current class gives ", y)); return false; } H::eval(); H::event("values"); } return true;
}
template<class L, class M, int caps> void engine(const char* n) {
  H::Rng r = H::rng();
  { L l; M m; follow(l, m, n, "default", 3000); CHECK((l.min)() == (m.min)() && (l.max)() == (m.max)(), H::cat(n, "/bounds"), (l.min)(), " ", (l.max)()); }
  for (u64 t = 0; t < H::n(60, 600); ++t) {
    u32 s = t < 4 ? (u32)t : t < 6 ? 0x7fffffffu - (u32)t : (u32)(r.next() >> (32 + r.below(31))); s &= 0x7fffffffu; H::seen(s);
    L l(s); M m(s); follow(l, m, n, "seeded"); { int i = (int)s; L l2(i); M m2(s); follow(l2, m2, n, "seeded with int", 50); const int ci = i; L l3(ci); M m3(s); follow(l3, m3, n, "seeded with const int", 50); u32 uu = s; L l4(uu); M m4(s); follow(l4, m4, n, "seeded with an object", 50); }
    l.seed(s); m.seed(s); follow(l, m, n, "reseeded", 50); { u32 uu = s; l.seed(uu); m.seed(s); follow(l, m, n, "reseeded with an object", 50); int i = (int)s; l.seed(i); m.seed(s); follow(l, m, n, "reseeded with int", 50); }
    // copies: from a changeable object, from a constant one, assigned; independent afterwards
    L keep(l); const L& cl = l; L keep2(cl), keep3; keep3 = l; L moved(std::move(keep3)); M mk(m);
    CHECK(keep == l && keep2 == l && moved == l && !(keep != l), H::cat(n, "/copy equal"), "seed ", s);
    follow(l, m, n, "after copying", 50); { M a(mk), b(mk), c(mk); follow(keep, a, n, "copy of an object", 60); follow(keep2, b, n, "copy of a constant", 60); follow(moved, c, n, "moved", 60); }
    u64 j = r.below(2000); l.discard(j); m.discard(j); follow(l, m, n, "discard", 50);
    { std::stringstream ss; ss << l; L q; ss >> q; CHECK(bool(ss) && q == l, H::cat(n, "/stream"), "seed ", s); std::stringstream s2, s3; s2 << l; s3 << m; CHECK(s2.str() == s3.str(), H::cat(n, "/stream text"), "seed ", s); M a(m); follow(q, a, n, "restored", 50); }
    std::vector<u32> v(2600); for (auto& x : v) x = (u32)r.next(); auto i1 = v.begin(), i2 = v.begin(); L lr(i1, v.end()); M mr(i2, v.end()); CHECK(i1 == i2, H::cat(n, "/range"), "consumed ", i1 - v.begin(), " words instead of ", i2 - v.begin()); follow(lr, mr, n, "range", 50); i1 = i2 = v.begin(); lr.seed(i1, v.end()); mr.seed(i2, v.end()); CHECK(i1 == i2, H::cat(n, "/range"), "consumed"); follow(lr, mr, n, "range reseeded", 50);
    l.seed(); m.seed(); follow(l, m, n, "default reseeded", 50);
    if constexpr (caps & SEQ) { br::seed_seq q{ s, 5u, (u32)t }, q2{ s, 5u, (u32)t }; L a(q); M b(q2); follow(a, b, n, "seed sequence", 100); a.seed(q); b.seed(q2); follow(a, b, n, "seed sequence", 50); }
    if constexpr (caps & GEN) { br::minstd_rand g(s % 1000000 + 1), h(s % 1000000 + 1); L a(g); GenSeq<br::minstd_rand> sq(h); M b(sq); CHECK(g == h, H::cat(n, "/generator"), "seeding consumed another number of values"); follow(a, b, n, "generator", 100); a.seed(g); b.seed(sq); follow(a, b, n, "generator", 50); }
    br::uniform_int_distribution<> d(1, 6); L x(s); M y(s); for (int k = 0; k < 50; ++k) CHECK(d(x) == d(y), H::cat(n, "/distribution"), "seed ", s); boost::variate_generator<L&, br::uniform_int_distribution<>> g(x, d); for (int k = 0; k < 20; ++k) CHECK(g() == d(y), H::cat(n, "/distribution"), "seed ", s);
  }
}
SCEN("old mersenne_twister") { engine<LMT, MMT, GEN>("mt19937"); engine<LMT11, MMT11, GEN>("mt11213"); br::mt19937 a; MMT b; follow(a, b, "predefined", "default", 2000); LMT l; br::mt19937 p; LMT e; for (int k = 0; k < 9999; ++k) e(); CHECK(e() == 4123659995u, "mt19937/10000th", "wrong"); (void)l; (void)p; }
SCEN("old subtract_with_carry") { engine<LSWC, MSWC, GEN>("swc24"); engine<LSWC31, MSWC31, GEN>("swc31"); engine<LSWC01, MSWC01, GEN>("swc01"); }
SCEN("old lagged_fibonacci") { engine<LLF, MLF, SEQ>("lf607"); engine<LLF01, MLF01, SEQ>("lf01"); }
SCEN("old linear_congruential") { engine<LLCG, MLCG, 0>("minstd0"); engine<LICG, MICG, 0>("inversive"); }
SCEN("old linear_feedback_shift") { engine<LFS, MFS, SEQ>("lfsr"); }
SCEN("old xor_combine") { engine<LX, MX, 0>("taus"); engine<LX2, MX2, 0>("shifted"); }
SCEN("old additive_combine") { engine<LAC, MAC, SEQ>("additive"); }
SCEN("old discard_block") { engine<LDB2, MDB2, SEQ>("ranlux24"); }
SCEN("old discard_block on old base") { engine<LDB, MDB, 0>("ranlux3"); }
SCEN("old shuffle_output") { engine<LSH, MSH, SEQ>("knuth"); engine<LSH48, MSH48, SEQ>("rand48"); }
// names kept in namespace boost are the current classes
SCEN("old names") {
#define NAME(x) CHECK((std::is_same<boost::x, br::x>::value), "names/" #x, "boost::" #x " is another type");
  NAME(minstd_rand0) NAME(minstd_rand) NAME(rand48) NAME(ecuyer1988) NAME(kreutzer1986) NAME(hellekalek1995) NAME(mt11213b) NAME(mt19937) NAME(mt19937_64) NAME(taus88) NAME(lagged_fibonacci607) NAME(lagged_fibonacci1279) NAME(lagged_fibonacci2281) NAME(lagged_fibonacci3217) NAME(lagged_fibonacci4423) NAME(lagged_fibonacci9689) NAME(lagged_fibonacci19937) NAME(lagged_fibonacci23209) NAME(lagged_fibonacci44497)
  NAME(ranlux3) NAME(ranlux4) NAME(ranlux64_3) NAME(ranlux64_4) NAME(ranlux3_01) NAME(ranlux4_01) NAME(ranlux64_3_01) NAME(ranlux64_4_01)
  NAME(uniform_01<double>) NAME(uniform_smallint<int>) NAME(bernoulli_distribution<>) NAME(binomial_distribution<>) NAME(cauchy_distribution<>) NAME(exponential_distribution<>) NAME(gamma_distribution<>) NAME(normal_distribution<>) NAME(poisson_distribution<>) NAME(triangle_distribution<>) NAME(uniform_on_sphere<>)
  H::seen("names");
}
#endif
