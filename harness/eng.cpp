// Engine monitors.  VERIF_PROP selects the property, VERIF_GROUP the engines.
#include "engines.hpp"
#include <boost/random/seed_seq.hpp>
#include <random>
#include <list>
#include <sstream>
#include <iterator>

#define VERIF_STR2(x) #x
#define VERIF_STR(x) VERIF_STR2(x)
using ref::Model; using ref::MP;
template<class E> struct is_mixmax : std::is_same<E, br::mixmax> {};
template<class E> struct is_split : std::is_same<E, br::splitmix64> {};
template<class E> struct has_range_seed { static const bool value = !is_split<E>::value; };
// seed type of an engine
template<class E> struct seed_of { typedef typename std::conditional<std::is_integral<typename E::result_type>::value, typename E::result_type, u32>::type type; };
template<> struct seed_of<br::mixmax> { typedef u64 type; };
template<class B, std::size_t w, class U> struct seed_of<br::independent_bits_engine<B,w,U>> { typedef typename seed_of<B>::type type; };
template<class B, std::size_t p, std::size_t r> struct seed_of<br::discard_block_engine<B,p,r>> : seed_of<B> {};
template<class B, std::size_t k> struct seed_of<br::shuffle_order_engine<B,k>> : seed_of<B> {};
// engines that keep their state in a character type cannot be written as numbers
template<class E> struct narrow : std::false_type {};
template<class I, I a, I c, I m> struct narrow<br::linear_congruential_engine<I,a,c,m>> : std::integral_constant<bool, sizeof(I) == 1> {};
template<class B, std::size_t p, std::size_t r> struct narrow<br::discard_block_engine<B,p,r>> : narrow<B> {};
template<class B, std::size_t k> struct narrow<br::shuffle_order_engine<B,k>> : narrow<B> {};
template<class B, std::size_t w, class U> struct narrow<br::independent_bits_engine<B,w,U>> : narrow<B> {};
// engines with state bits that never reach a value
template<class E> struct deadbits : std::false_type {};
template<class U, int w, int k, int q, int s> struct deadbits<br::linear_feedback_shift_engine<U,w,k,q,s>> : std::true_type {};
template<class A, int s1, class B, int s2> struct deadbits<br::xor_combine_engine<A,s1,B,s2>> : std::integral_constant<bool, deadbits<A>::value || deadbits<B>::value> {};

// user-supplied seed sequence
struct Seq {
  std::vector<u32> pool; std::vector<std::size_t>* log;
  std::vector<u32> make(std::size_t n) const { std::vector<u32> r(n); for (std::size_t i = 0; i < n; ++i) { u64 z = H::mix(i * 977 + n, pool.empty() ? 5 : pool[i % pool.size()]); r[i] = (pool.size() > 1 && pool[0] == 0xabcd) ? 0 : (u32)(z >> 16); } return r; }
  template<class It> void generate(It b, It e) const { std::size_t n = 0; for (It t = b; t != e; ++t) ++n; if (log) log->push_back(n); auto v = make(n); for (auto x : v) { *b = x; ++b; } }
};

template<class T> std::vector<T> seeds(H::Rng& g, int extra) {
  std::vector<T> v = { T(0), T(1), T(2), T(42), T(-1), T(-2), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(T(1) << (sizeof(T)*8-2)), T(2147483647u), T(2147483646u), T(2147483648u), T(2147483563u), T(2147483399u), T(331), T(12345), T(u64(1) << 32), T((u64(1) << 32) - 5), T((u64(1) << 61) - 1), T(65521), T(251), T(7) };
  for (int i = 0; i < extra; ++i) v.push_back((T)(g.next() >> g.below(sizeof(T) * 8)));
  return v;
}
inline std::vector<u32> words(H::Rng& g, std::size_t n, int kind) {
  std::vector<u32> v(n);
  for (std::size_t i = 0; i < n; ++i) switch (kind) {
    case 0: v[i] = (u32)g.next(); break;
    case 1: v[i] = 0xffffffffu; break;
    case 2: v[i] = i == n - 1; break;
    case 3: v[i] = (u32)(i + 1); break;
    case 4: v[i] = i == 0 ? 0x80000000u : 0; break;
    case 5: v[i] = g.coin() ? 0 : (u32)g.next(); break;
    case 7: { static const u32 t[] = { 0, 0x80000000u, 0xffffffffu, 1, 0x7fffffffu, 0xfffffffeu, 0x40000000u }; v[i] = t[g.below(7)]; break; }
    case 8: v[i] = (i & 1) ? 0x80000000u : 0; break;      // 48-bit words of 0x8000 above 0
    case 9: v[i] = (i & 1) ? (g.coin() ? 0x8000u : 0) : 0; break;
    case 10: v[i] = g.coin() ? 0x80000000u : 0; break;    // sums that reach the modulus exactly
    case 11: v[i] = g.coin() ? 0x800000u : 0xffffff80u; break;
    default: v[i] = 0;
  }
  return v;
}
struct CountIt {   // input iterator that knows how far it was read and its end
  typedef std::input_iterator_tag iterator_category; typedef u32 value_type; typedef std::ptrdiff_t difference_type; typedef const u32* pointer; typedef const u32& reference;
  const std::vector<u32>* v; std::size_t i; bool* over;
  u32 operator*() const { if (i >= v->size()) { *over = true; return 0; } return (*v)[i]; }
  CountIt& operator++() { ++i; if (i > v->size()) *over = true; return *this; }
  CountIt operator++(int) { CountIt t = *this; ++*this; return t; }
  bool operator==(const CountIt& o) const { return i == o.i; }
  bool operator!=(const CountIt& o) const { return i != o.i; }
};
template<class E> std::size_t words_needed() {
  MP m = ref::model_of<E>::make(); std::vector<u32> v(200000, 12345); ref::Range r{&v, 0}; m->seed_range(r); return r.pos;
}
template<class V> bool same(const V& a, const V& b) { return a == b; }
template<class E> std::vector<typename E::result_type> take(E& e, std::size_t n) { std::vector<typename E::result_type> v(n); for (auto& x : v) x = e(); return v; }
// compare n values of e with model m from now on
template<class E> bool follow(E& e, Model& m, u64 n, const std::string& key, const std::string& what) {
  for (u64 i = 0; i < n; ++i) {
    auto v = e(); i128 g = ref::ival(v, m), w = m.next(); H::eval();
    if (g != w) { H::viol(key, H::cat(what, ": value ", i, " is ", g, ", the reference gives ", w)); return false; }
  }
  return true;
}
template<class E> struct reals { static const bool value = std::is_floating_point<typename E::result_type>::value; };
template<class E> bool inb(typename E::result_type v) { return v >= (E::min)() && (reals<E>::value ? v < (E::max)() : v <= (E::max)()); }

// engine and model brought into states that random seeds practically never reach: values equal to the ends of the
// range, components with the same value, words at the ends of the modulus
template<class E> struct edge_states { template<class F> static void go(F) {} };
inline bool lcg_before(const ref::Lcg& l, i128 target, u128& x) {   // x with a x + c = target (mod m)
  u128 m = l.m; i128 r0 = (i128)m, r1 = (i128)(l.a % m), t0 = 0, t1 = 1; if (target < 0 || (u128)target >= m) return false;
  while (r1) { i128 q = r0 / r1, t = r0 - q * r1; r0 = r1; r1 = t; t = t0 - q * t1; t0 = t1; t1 = t; }
  if (r0 != 1) return false; u128 inv = t0 < 0 ? (u128)(t0 + (i128)m) : (u128)t0;
  x = ref::mulmod(inv, ((u128)target + m - l.c % m) % m, m); return true;
}
template<class I, I a, I c, I m> struct edge_states<br::linear_congruential_engine<I,a,c,m>> { template<class F> static void go(F f) {
  typedef br::linear_congruential_engine<I,a,c,m> E; MP p = ref::model_of<E>::make(); ref::Lcg& l = dynamic_cast<ref::Lcg&>(*p); i128 M = (i128)l.m;
  for (i128 t : { (i128)0, (i128)1, (i128)2, M - 1, M - 2, M / 2, M / 2 + 1, M / 2 - 1, (i128)127773, (i128)44488, (i128)2836, M / 3 }) { u128 x;
    if (!lcg_before(l, t, x) || (l.c % l.m == 0 && (t == 0 || x == 0))) continue; E e((I)x); l.seed_int((i128)(I)x); f(e, *p, H::cat("state before the value ", t)); } } };
template<class I, I a, I b, I pp> struct edge_states<br::inversive_congruential_engine<I,a,b,pp>> { template<class F> static void go(F f) {
  typedef br::inversive_congruential_engine<I,a,b,pp> E; MP p = ref::model_of<E>::make(); ref::Inv& l = dynamic_cast<ref::Inv&>(*p); i128 M = (i128)l.m;
  for (i128 t : { (i128)0, (i128)1, (i128)2, M - 1, M - 2, M / 2, (i128)l.c }) { u128 y; if (!lcg_before(l, t, y)) continue; u128 x = y ? ref::powmod(y, l.m - 2, l.m) : 0; if (x == 0 && l.c % l.m == 0) continue;
    E e((I)x); l.seed_int((i128)(I)x); f(e, *p, H::cat("state before the value ", t)); } } };
template<class A, class B> struct edge_states<br::additive_combine_engine<A,B>> { template<class F> static void go(F f) {
  typedef br::additive_combine_engine<A,B> E; MP p = ref::model_of<E>::make(); auto& c = dynamic_cast<ref::AddCombine&>(*p); i128 M = (i128)c.a.m, N = (i128)c.b.m;
  for (i128 t : { (i128)1, (i128)2, M - 1, M - 2, M / 2, M / 3, (i128)123456789 % M }) for (i128 d : { (i128)0, (i128)1, (i128)-1, (i128)2, (i128)-2, N - 1 - t, 1 - t, N / 2, M - 1 - t, M - t }) { u128 x, y;
    if (t < 1 || t >= M || t + d < 0 || t + d >= N || !lcg_before(c.a, t, x) || !lcg_before(c.b, t + d, y)) continue; if ((c.a.c == 0 && x == 0) || (c.b.c == 0 && y == 0)) continue;
    typedef typename A::result_type RA; typedef typename B::result_type RB; if ((i128)(RA)x < 0 || (i128)(RB)y < 0) continue;
    E e((RA)x, (RB)y); c.a.x = x; c.b.x = y; f(e, *p, H::cat("components ", t, " and ", t + d)); } } };
template<> struct edge_states<br::mixmax> { template<class F> static void go(F f) {
  typedef br::mixmax E; H::Rng g = H::rng(55); const u64 P = ref::Mixmax::P;
  for (int r = 0; r < 60; ++r) { MP p = ref::model_of<E>::make(); auto& m = dynamic_cast<ref::Mixmax&>(*p); u64 sum = 0; std::string t;
    for (int j = 0; j < 17; ++j) { u64 v; switch (g.below(r < 20 ? 5 : r < 40 ? 8 : 3)) { case 0: v = 0; break; case 1: v = P - 1; break; case 2: v = P; break; case 3: v = 1; break; case 4: v = P - 1 - g.below(9); break; case 5: v = (u64)1 << g.below(61); break; case 6: v = P - ((u64)1 << g.below(61)); break; default: v = g.next() & P; }
      if (j == 0 && !v) v = 1; m.V[j] = v % P; sum += v; sum = (sum & P) + (sum >> 61); t += H::str(v) + " "; }
    m.counter = 17; E e; std::istringstream is("17 17 " + H::str(sum) + " " + t); is >> e; if (is.fail()) { is.clear(); continue; } f(e, *p, "state of extreme words " + t.substr(0, 60)); H::event("mixmax states"); } } };
template<class E> struct is_mod_value : is_mixmax<E> {};   // 0 and the modulus stand for the same value
// ---- P02 / P03 / P04: sequences against the reference
template<class E> void t_seq() {
  H::Rng g = H::rng(); MP m = ref::model_of<E>::make(); typedef typename seed_of<E>::type S;
  CHECK((ref::ival((E::min)(), *m) == m->mn()), "min", "min() ", (long double)(E::min)(), " reference ", m->mn());
  CHECK((ref::ival((E::max)(), *m) == m->mx()), "max", "max() ", (long double)(E::max)(), " reference ", m->mx());
  { E e; follow(e, *m, H::n(60000, 2000000), "default", "default seed"); H::event("sequences"); H::seen(H::st().scen + "/default"); }
  for (S s : seeds<S>(g, H::n(20, 300))) {
    E e(s); m->seed_int((i128)s);
    if (!follow(e, *m, H::n(1500, 20000), "int-seed", H::cat("seed ", s))) break;
    H::event("sequences"); H::seen(H::cat(H::st().scen, "/", s));
    H::sample(H::cat("seed ", s, " -> next ", (long double)e())); m->next();
  }
  edge_states<E>::go([&](E& e, Model& mm, const std::string& what) {
    for (int i = 0; i < 200; ++i) { i128 v = ref::ival(e(), mm), w = mm.next(); H::eval(); if (is_mod_value<E>::value && v == (i128)ref::Mixmax::P) v = 0; if (v != w) { H::viol("edge", H::cat(what, ": value ", i, " is ", v, ", the reference gives ", w)); break; } }
    H::event("edge states"); H::seen(H::st().scen + what);
  });
  if (m->exact_seed_words()) {
    std::size_t nw = has_range_seed<E>::value ? words_needed<E>() : 0;
    if constexpr (has_range_seed<E>::value)
      for (int k = 0; k < (int)H::n(22, 90); ++k) {
        std::vector<u32> w = words(g, nw + 3, k < 6 ? k : k % 6 == 0 ? 0 : k % 6 == 1 ? 5 : 6 + k % 6);
        const u32* p = w.data(); E e(p, p + w.size());
        ref::Range r{&w, 0}; m->seed_range(r);
        if (!follow(e, *m, 1500, "range-seed", H::cat("words kind ", k))) break;
        H::event("sequences"); H::seen(H::cat(H::st().scen, "/range", k, w));
      }
    for (int k = 0; k < (int)H::n(10, 60); ++k) {
      Seq q; q.log = 0; for (int i = 0; i < k % 4 + 1; ++i) q.pool.push_back((u32)g.next());
      E e(q); m->seed_seq([&](std::size_t n) { return q.make(n); });
      if (!follow(e, *m, 1500, "seq-seed", H::cat("custom seed sequence ", k))) break;
      H::event("sequences"); H::seen(H::cat(H::st().scen, "/seq", k, q.pool));
    }
    for (int k = 0; k < 4; ++k) {
      std::vector<u32> pool; for (int i = 0; i < k * 3; ++i) pool.push_back((u32)g.next());
      br::seed_seq q(pool.begin(), pool.end()); std::seed_seq sq(pool.begin(), pool.end());
      E e(q); m->seed_seq([&](std::size_t n) { std::vector<u32> v(n); sq.generate(v.begin(), v.end()); return v; });
      if (!follow(e, *m, 500, "seedseq-seed", H::cat("boost::random::seed_seq of ", pool.size()))) break;
      H::event("sequences"); H::seen(H::cat(H::st().scen, "/seedseq", k, pool));
    }
  }
}
// the engines of the C++ standard library as a second, separate oracle
template<class E, class S> void vs_std(const char* k) {
  H::Rng g = H::rng(7); typedef typename E::result_type T;
  { E e; S s; for (int i = 0; i < 20000; ++i) { auto a = e(); auto b = s(); H::eval(); if (a != b) { H::viol("std-default", H::cat("differs from the C++ standard engine at ", i)); return; } } }
  for (T x : seeds<T>(g, 10)) { if (!std::is_same<E, br::mt19937_64>::value) x = (T)(u32)x; E e(x); S s(x); for (int i = 0; i < 1500; ++i) { auto a = e(); auto b = s(); H::eval(); if (a != b) { H::viol("std-seed", H::cat("seed ", x, " differs from the C++ standard engine at ", i)); return; } } }
  for (int q = 0; q < 5; ++q) { std::vector<u32> p; for (int i = 0; i < q; ++i) p.push_back((u32)g.next()); br::seed_seq bs(p.begin(), p.end()); std::seed_seq ss(p.begin(), p.end()); E e(bs); S s(ss); for (int i = 0; i < 1500; ++i) { H::eval(); if (e() != s()) { H::viol("std-seedseq", H::cat("seed_seq ", p, " differs from the C++ standard engine at ", i)); return; } } }
  CHECK((E::min)() == (S::min)() && (E::max)() == (S::max)(), "std-bounds", "bounds differ from the standard engine");
  H::event("std-engine comparisons");
}
template<class E> void t_std() {}
template<> void t_std<br::minstd_rand0>() { vs_std<br::minstd_rand0, std::minstd_rand0>(""); }
template<> void t_std<br::minstd_rand>() { vs_std<br::minstd_rand, std::minstd_rand>(""); }
template<> void t_std<br::mt19937>() { vs_std<br::mt19937, std::mt19937>(""); }
template<> void t_std<br::mt19937_64>() { vs_std<br::mt19937_64, std::mt19937_64>(""); }
template<> void t_std<br::ranlux24_base>() { vs_std<br::ranlux24_base, std::ranlux24_base>(""); }
template<> void t_std<br::ranlux48_base>() { vs_std<br::ranlux48_base, std::ranlux48_base>(""); }
template<> void t_std<br::ranlux24>() { vs_std<br::ranlux24, std::ranlux24>(""); }
template<> void t_std<br::ranlux48>() { vs_std<br::ranlux48, std::ranlux48>(""); }
template<> void t_std<br::knuth_b>() { vs_std<br::knuth_b, std::knuth_b>(""); }
template<> void t_std<br::rand48>() {
  H::Rng g = H::rng(3);
  for (u32 x : seeds<u32>(g, 40)) { br::rand48 e(x); srand48((long)(int)x); for (int i = 0; i < 2000; ++i) { H::eval(); if (e() != (u32)lrand48()) { H::viol("lrand48", H::cat("seed ", x, " differs from lrand48 at ", i)); return; } } }
  H::event("lrand48 comparisons");
}

// ---- random operation histories; keeps a model in step
template<class E> struct Hist {
  H::Rng g; MP m; E e; typedef typename seed_of<E>::type S;
  Hist(u64 salt) : g(H::rng(salt)), m(ref::model_of<E>::make()), e() {}
  void reseed() {
    switch (g.below(4)) {
      case 0: e.seed(); m->seed_default(); break;
      default: { S s = (S)(g.next() >> g.below(64)); e.seed(s); m->seed_int((i128)s); }
    }
  }
  void op(u64 big) {
    switch (g.below(8)) {
      case 0: reseed(); break;
      case 1: { u64 k = g.below(big); e.discard(k); for (u64 i = 0; i < k; ++i) m->next(); break; }
      case 2: { E t(e); e = t; break; }
      case 3: if constexpr (!narrow<E>::value) { std::stringstream s; s << e; E t; t.discard(g.below(5)); s >> t; e = t; if (!s) H::viol("restore", "restore failed"); break; }
      default: { u64 k = g.below(30); for (u64 i = 0; i < k; ++i) { e(); m->next(); } }
    }
  }
};
// ---- P01
template<class E> struct is_lcg : std::false_type {}; template<class I, I a, I c, I m> struct is_lcg<br::linear_congruential_engine<I,a,c,m>> : std::true_type {};
// a state outside the range is not accepted from a stream, one inside is
template<class E> void read_states() {
  if constexpr (is_lcg<E>::value && !narrow<E>::value) {
    typedef typename E::result_type I; H::Rng g = H::rng(80); const i128 mn = (E::min)(), mx = (E::max)(), lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    std::vector<i128> v = { mn - 2, mn - 1, mn, mn + 1, mx - 1, mx, mx + 1, mx + 2, lo, hi, hi - 1, 0, 1 }; for (int k = 0; k < 20; ++k) v.push_back((i128)(I)g.next());
    for (i128 x : v) { if (x < lo || x > hi) continue; std::ostringstream t; t << (I)x; std::istringstream is(t.str()); E e((I)5); E old(e); is >> e; const bool in = x >= mn && x <= mx;
      CHECK(!is.fail() == in, "read", "state ", H::str((I)x), in ? " was refused" : " was accepted"); if (!in) CHECK(e == old, "read", "a refused state changed the engine");
      for (int k = 0; k < 50; ++k) { auto y = e(); if (!inb<E>(y)) { H::viol("outside", H::cat("after reading state ", H::str((I)x), ": value ", H::str(y))); break; } } H::event("states read"); }
  }
}
template<class E> void t_bounds() {
  typedef typename seed_of<E>::type S; H::Rng g = H::rng(); MP m = ref::model_of<E>::make();
  const auto mn = (E::min)(); const auto mx = (E::max)();
  CHECK(ref::ival(mn, *m) == m->mn() && ref::ival(mx, *m) == m->mx(), "bounds", "advertised [", (long double)mn, ",", (long double)mx, "], published generator [", m->mn(), ",", m->mx(), "]");
  CHECK(mn < mx, "order", "min >= max");
  auto run = [&](E& e, u64 n, const std::string& how) {
    for (u64 i = 0; i < n; ++i) { auto v = e(); H::eval(); if (!inb<E>(v)) { H::viol("outside", H::cat(how, ": value ", (long double)v, " at ", i, " outside [", (long double)mn, ",", (long double)mx, "]")); return; } }
    CHECK((e.min)() == mn && (e.max)() == mx, "moved", how, ": the bounds changed"); H::seen(H::st().scen + how);
  };
  { E e; run(e, H::n(300000, 5000000), "default"); }
  for (S s : seeds<S>(g, 20)) { E e(s); run(e, H::n(3000, 50000), H::cat("seed ", s)); e.discard(g.below(2000)); run(e, 50, H::cat("discard after seed ", s)); }
  if constexpr (has_range_seed<E>::value) {
    std::size_t nw = words_needed<E>();
    for (int k = 0; k < 24; ++k) { auto w = words(g, nw, k % 12); if (k % 12 == 6) continue; auto p = w.begin(); E e(p, w.end()); run(e, 5000, H::cat("words ", k)); }
    for (int k = 0; k < 3; ++k) { std::vector<u32> w(nw); for (auto& x : w) x = k == 0 ? 0xffffffffu : k == 1 ? 0xfffffffeu : 0x7fffffffu; auto p = w.begin(); E e(p, w.end()); run(e, 3000, H::cat("top words ", k)); }
  }
  edge_states<E>::go([&](E& e, Model&, const std::string& what) { run(e, 200, what); H::event("edge states"); });
  for (int k = 0; k < 6; ++k) { Seq q; q.log = 0; q.pool = { k == 0 ? 0xabcdu : (u32)g.next(), 1 }; E e(q); run(e, 3000, H::cat("seq ", k)); }
  for (int h = 0; h < (int)H::n(20, 200); ++h) { Hist<E> x(h); for (int i = 0; i < 15; ++i) x.op(300); run(x.e, 100, H::cat("history ", h)); H::event("histories"); }
}
// ---- P05
template<class E> void t_discard() {
  H::Rng g = H::rng(); typedef typename seed_of<E>::type S;
  std::vector<u64> js = { 0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 16, 17, 23, 24, 25, 31, 47, 48, 55, 96, 97, 98, 155, 156, 157, 223, 226, 227, 228, 255, 256, 257, 272, 273, 274, 311, 312, 313, 334, 350, 351, 352, 388, 389, 396, 397, 398, 446, 606, 607, 608, 622, 623, 624, 625, 700, 1000, 1214, 1247, 1248, 1249, 1278, 1279, 1280, 1871, 1872, 1873, 2281, 3217, 4423, 9689, 19937, 23209, 44497, 100003 };
  int rounds = (int)H::n(60, 1500);
  for (int r = 0; r < rounds; ++r) {
    E a((S)(g.next() >> 20)); u64 pre = r < 8 ? (u64)r : g.below(3000); for (u64 i = 0; i < pre; ++i) a();
    E b(a); u64 j = r < 40 && g.coin() ? g.below(60) : js[g.below(js.size())];
    a.discard(j); for (u64 i = 0; i < j; ++i) b();
    H::eval();
    if (!(a == b)) { H::viol("state", H::cat("after ", pre, " draws, discard(", j, ") and ", j, " draws leave different states")); }
    for (int i = 0; i < 40; ++i) { auto x = a(); auto y = b(); H::eval(); if (x != y) { H::viol("value", H::cat("after ", pre, " draws and discard(", j, ") value ", i, " differs")); break; } }
    H::event("discards"); H::seen(H::cat(H::st().scen, pre, "/", j)); if (r == 20) H::sample(H::cat("after ", pre, " draws discard(", j, ")"));
  }
  for (u64 j : js) { // every listed length from the start and from a middle position
    if (H::quick() && j > 5000) continue;
    for (u64 pre : { (u64)0, (u64)1, g.below(700) }) {
      E a; a.discard(pre); E b; for (u64 i = 0; i < pre + j; ++i) b(); a.discard(j); H::eval();
      if (!(a == b) || a() != b()) { H::viol("value", H::cat("discard(", pre, ") then discard(", j, ") differs from ", pre + j, " draws")); }
      H::seen(H::cat(H::st().scen, "s", pre, "/", j)); H::event("discards");
    }
  }
  { // additivity with random splits
    for (int r = 0; r < (int)H::n(20, 200); ++r) { E a, b; u64 tot = 0; for (int k = 0; k < 5; ++k) { u64 j = g.below(400); a.discard(j); tot += j; } b.discard(tot); CHECK(a == b, "additive", "consecutive discards of total ", tot, " differ from one discard"); a(); b(); CHECK(a == b, "additive", "differ after a draw"); }
  }
}
template<class E> void big_lcg() {   // closed form: x_{n+j} = a^j x + c (a^j-1)/(a-1)
  H::Rng g = H::rng(11); typedef typename seed_of<E>::type S; MP m0 = ref::model_of<E>::make(); ref::Lcg* l = dynamic_cast<ref::Lcg*>(m0.get()); if (!l || dynamic_cast<ref::Inv*>(l)) return;
  for (int r = 0; r < (int)H::n(200, 5000); ++r) {
    S s = (S)g.next(); u64 j = r < 64 ? ((u64)1 << r) : r < 128 ? ~((u64)1 << (r - 64)) : g.next() >> g.below(64); if (r == 128) j = ~(u64)0;
    E e(s); l->seed_int((i128)s); e.discard(j);
    u128 A = 1 % l->m, C = 0, pa = l->a % l->m, pc = l->c % l->m; u64 k = j;  // affine map composition
    while (k) { if (k & 1) { A = ref::mulmod(A, pa, l->m); C = (ref::mulmod(C, pa, l->m) + pc) % l->m; } pc = (ref::mulmod(pa, pc, l->m) + pc) % l->m; pa = ref::mulmod(pa, pa, l->m); k >>= 1; }
    l->x = (ref::mulmod(A, l->x, l->m) + C) % l->m;
    if (!follow(e, *l, 3, "huge", H::cat("seed ", s, " discard(", j, ")"))) break;
    H::event("huge discards"); H::seen(H::cat(H::st().scen, "huge", j));
  }
}
template<class E> void t_big() {}
template<class E> void big_jump(u64 walk) {   // discard of astronomically many values: consistency by addition and one long walk
  H::Rng g = H::rng(12);
  { E a(7), b(7); for (u64 i = 0; i < 5; ++i) { a(); b(); } a.discard(walk); for (u64 i = 0; i < walk; ++i) b(); CHECK(a == b, "huge", "discard(", walk, ") differs from as many draws"); for (int i = 0; i < 700; ++i) if (a() != b()) { H::viol("huge", H::cat("value ", i, " after discard(", walk, ") differs")); break; } H::event("huge discards"); }
  for (int r = 0; r < (int)H::n(1, 4); ++r) {
    u64 x = g.next() >> (2 + g.below(20)), y = g.next() >> (2 + g.below(20)), z = g.below(2000); if (x < 20000000) x += 20000000;
    E a(9 + r), b(9 + r); a.discard(x); for (u64 i = 0; i < z; ++i) a(); a.discard(y); b.discard(x + y); b.discard(z);
    CHECK(a == b, "huge-additive", "discard(", x, "), ", z, " draws, discard(", y, ") differ from one discard of the total");
    bool ok = true; for (int i = 0; i < 1400 && ok; ++i) ok = a() == b(); CHECK(ok, "huge-additive", "values differ after discards of ", x, "+", z, "+", y); H::event("huge discards"); H::seen(H::cat(x, y, z));
  }
}
template<> void t_big<br::mt19937>() { big_jump<br::mt19937>(10000700); }
template<> void t_big<br::mt19937_64>() { big_jump<br::mt19937_64>(10000001); }
template<> void t_big<br::mt11213b>() { big_jump<br::mt11213b>(10001234); }
template<> void t_big<E_mts>() { big_jump<E_mts>(12000001); }
template<> void t_big<E_mts1>() { big_jump<E_mts1>(10000002); }
template<> void t_big<E_mtsn>() { big_jump<E_mtsn>(10000017); }
template<> void t_big<E_mt31>() { big_jump<E_mt31>(10000017); }
template<> void t_big<E_mts64>() { big_jump<E_mts64>(10000017); }
template<> void t_big<E_mt40>() { big_jump<E_mt40>(10000017); }

// ---- P06
template<class B, class E> struct is_base : std::false_type {};   // E(B) copies its base engine
template<class B, std::size_t p, std::size_t r> struct is_base<B, br::discard_block_engine<B,p,r>> : std::true_type {};
template<class B, std::size_t k> struct is_base<B, br::shuffle_order_engine<B,k>> : std::true_type {};
template<class B, std::size_t w, class U> struct is_base<B, br::independent_bits_engine<B,w,U>> : std::true_type {};
template<class E> void t_seed() {
  H::Rng g = H::rng(); typedef typename seed_of<E>::type S; typedef typename E::result_type T;
  auto used = [&](u64 k) { E e((S)g.next()); e.discard(g.below(100) + k); for (u64 i = g.below(50); i--;) e(); return e; };
  auto same_engine = [&](E& a, E& b, const char* key, const std::string& what) { CHECK(a == b, key, what, ": engines are not equal"); for (int i = 0; i < 300; ++i) { T x = a(), y = b(); H::eval(); if (x != y) { H::viol(key, H::cat(what, ": value ", i, " differs")); return; } } H::event("seed pairs"); };
  const bool published = std::string(VERIF_STR(VERIF_GROUP)).find("PRE") != std::string::npos;
  auto alive = [&](E e, const std::string& what) { if (!published) return; T f = e(); std::set<T> s; s.insert(f); for (int i = 0; i < 2500 && s.size() < 3; ++i) s.insert(e()); T span = (T)((E::max)() - (E::min)()); CHECK(s.size() >= (span == 1 ? 2u : 3u), "collapsed", what, ": the sequence does not vary"); };
  { E a; E b = used(1); b.seed(); same_engine(a, b, "default", "default seed"); alive(a, "default"); }
  { E a; MP m = ref::model_of<E>::make(); follow(a, *m, 300, "default-value", "default constructed"); E b = used(2); b.seed(); m->seed_default(); follow(b, *m, 300, "default-value", "seed()"); }
  for (S s : seeds<S>(g, H::n(30, 500))) {
    E a(s); E b = used(3); b.seed(s); same_engine(a, b, "int", H::cat("seed ", s)); alive(a, H::cat("seed ", s)); H::seen(H::cat(H::st().scen, s));
    E c(s); MP m = ref::model_of<E>::make(); m->seed_int((i128)s); follow(c, *m, 100, "int-value", H::cat("seed ", s));
  }
  { // other arithmetic types for the seed value
    E a((S)7); E b(7); E c(7u); E d(7l); E f(7ull); E h((short)7); CHECK(a == b && a == c && a == d && a == f && a == h, "arith", "seed 7 depends on the argument type");
    E p = used(1); p.seed(7); E q = used(2); q.seed(7ul); E r = used(3); r.seed((unsigned short)7); CHECK(a == p && a == q && a == r, "arith", "seed(7) depends on the argument type");
    const S cs = 9; E x(cs); E y = used(1); y.seed(cs); CHECK(x == y, "arith", "const seed");
  }
  for (int k = 0; k < (int)H::n(16, 100); ++k) {
    std::vector<std::size_t> l1, l2; Seq q; q.log = &l1; for (int i = 0; i <= k % 5; ++i) q.pool.push_back((u32)g.next()); if (k == 3) q.pool = { 0xabcd, 0 };
    E a(q); q.log = &l2; E b = used(4); b.seed(q); if (!(k == 3 && std::string(H::st().scen).find("lf") != std::string::npos)) same_engine(a, b, "seq", H::cat("seed sequence ", k));
    CHECK(l1 == l2 && !l1.empty(), "seq-calls", "constructor and seed() ask the sequence for different lengths");
    if (k != 3) alive(a, H::cat("sequence ", k)); H::seen(H::cat(H::st().scen, q.pool));
  }
  { br::seed_seq q; E a(q); E b = used(1); b.seed(q); same_engine(a, b, "seedseq", "seed_seq"); std::seed_seq sq{1, 2, 3}; E c(sq); E d = used(2); d.seed(sq); same_engine(c, d, "stdseedseq", "std::seed_seq"); br::seed_seq q3{1, 2, 3}; E c2(q3); E c3(sq); same_engine(c2, c3, "stdseedseq", "boost and std seed_seq"); }
  if constexpr (!std::is_same<E, br::minstd_rand>::value && !is_base<br::minstd_rand, E>::value) { br::minstd_rand gen(5), gen2(5); E a(gen); E b = used(1); b.seed(gen2); same_engine(a, b, "gen", "engine as seed sequence"); }
  if constexpr (!std::is_same<E, br::mt19937_64>::value && !is_base<br::mt19937_64, E>::value) { br::mt19937_64 h1(8), h2(8); E c(h1); E d = used(1); d.seed(h2); same_engine(c, d, "gen", "mt19937_64 as seed sequence"); CHECK(h1 == h2, "gen", "source advanced differently"); }
  if constexpr (has_range_seed<E>::value) {
    std::size_t nw = words_needed<E>(); H::event("range lengths checked");
    for (int k = 0; k < (int)H::n(12, 100); ++k) {
      std::vector<u32> w = words(g, nw + k % 4, k % 6); bool over = false;
      CountIt p{&w, 0, &over}, p2{&w, 0, &over}, e{&w, w.size(), &over};
      E a(p, e); E b = used(5); b.seed(p2, e);
      CHECK(p.i == nw && p2.i == nw, "range-consumed", "consumed ", p.i, "/", p2.i, " of ", nw, " words"); CHECK(!over, "range-overrun", "read beyond the end");
      same_engine(a, b, "range", H::cat("words kind ", k % 6));
      std::list<u32> ls(w.begin(), w.end()); auto li = ls.begin(); E c(li, ls.end()); CHECK(std::distance(ls.begin(), li) == (std::ptrdiff_t)nw, "range-consumed", "list iterator"); E d(a); { auto l2 = ls.begin(); d.seed(l2, ls.end()); } same_engine(c, d, "range", "list iterator");
      const u32* q = w.data(); E f(q, q + w.size()); CHECK(q == w.data() + nw, "range-consumed", "pointer"); 
      std::vector<u64> w64(w.begin(), w.end()); auto i64_ = w64.begin(); E h(i64_, w64.end()); CHECK(f == h, "range", "64-bit iterator gives another engine");
      H::seen(H::cat(H::st().scen, "r", k, w));
    }
    { // consecutive engines from one range
      std::vector<u32> w = words(g, 2 * nw, 0); auto p = w.begin(); E a(p, w.end()); E b(p, w.end()); CHECK(p == w.end(), "range-consumed", "two engines"); auto q = w.begin() + nw; E c(q, w.end()); same_engine(b, c, "range", "second engine of a range"); }
    std::vector<std::size_t> lens = { 0, nw / 2, nw - 1 }; for (int i = 0; i < 3; ++i) lens.push_back(g.below(nw));
    for (std::size_t len : lens) {
      if (len >= nw) continue;
      std::vector<u32> w = words(g, len, 0); bool over = false, thrown = false, thrown2 = false; CountIt p{&w, 0, &over}, p2{&w, 0, &over}, e{&w, len, &over};
      try { E a(p, e); } catch (std::invalid_argument&) { thrown = true; } catch (...) {}
      E b = used(6);
      try { b.seed(p2, e); } catch (std::invalid_argument&) { thrown2 = true; } catch (...) {}
      CHECK(thrown && thrown2, "short-range", "range of ", len, " of ", nw, " words did not raise invalid_argument"); CHECK(!over, "range-overrun", "read beyond the end of a short range");
      b.seed((S)3); E c((S)3); same_engine(b, c, "after-throw", "reseeding after the exception"); H::event("short ranges");
    }
  }
}
// ---- P07
template<class E, class C> void t_save_c(bool wide) {
  H::Rng g = H::rng(wide); typedef typename seed_of<E>::type S; typedef std::basic_stringstream<C> SS;
  E probe; std::basic_ostringstream<C> o; o << probe; std::size_t len = o.str().size();
  std::vector<u64> pos; u64 lim = len < 20000 ? H::n(len < 9000 ? 700 : 120, 1400) : 14; if (wide) lim = len < 9000 ? 60 : 6; 
  for (u64 i = 0; i < lim; ++i) pos.push_back(len < 20000 ? (i < 30 ? i : (len < 9000 ? i : g.below(1400))) : (i < 4 ? i : g.below(100000)));
  if (len >= 20000 && !wide) for (u64 b : { 606, 607, 1279, 2281, 3217, 4423, 9689, 19937, 23209, 44497 }) { pos.push_back(b); if (H::st().thorough) { pos.push_back(b - 1); pos.push_back(b + 1); } }
  E used((S)99); used.discard(13); E target; u64 at = 0; E walk((S)(g.next() >> 7)); std::sort(pos.begin(), pos.end());
  for (u64 p : pos) {
    while (at < p) { walk(); ++at; }
    E src(walk); SS s; s << src; bool tail = g.coin(); if (tail) s << C(' ') << 4711;
    std::basic_string<C> text = s.str();
    CHECK(src == walk, "disturbed", "writing changed the engine at ", p);
    E* t; E fresh((S)5); int kind = (int)g.below(3); t = kind == 0 ? &fresh : kind == 1 ? &used : &target; if (kind == 1) used.discard(g.below(700));
    s >> *t; H::eval();
    if (!s) { H::viol("failed", H::cat("reading back failed at position ", p)); continue; }
    if (!(*t == walk)) H::viol("unequal", H::cat("restored engine differs at position ", p));
    SS s2; s2 << *t; if (tail) s2 << C(' ') << 4711; CHECK(s2.str() == text, "rewrite", "writing the restored engine gives another text at ", p);
    if (tail) { int v = 0; s >> v; CHECK(v == 4711, "tail", "the data after the engine was not left in the stream (position ", p, ")"); }
    else { C c; s >> std::ws; CHECK(!(s >> c), "rest", "part of the engine's text was left behind"); }
    E cont(walk); std::size_t run = len < 9000 ? 700 : 40; if (H::quick() && p > 60) run = 40; bool ok = true; std::size_t i = 0; for (; i < run && ok; ++i) { ok = (*t)() == cont(); H::eval(); }
    if (!ok) H::viol("continue", H::cat("restored engine continues differently at position ", p, " + ", i));
    H::event("round trips"); H::seen(H::cat(H::st().scen, wide, p)); if (p == 10) H::sample(H::cat("restored at position ", p, " and followed for ", (u64)run));
  }
  { // several engines in one stream, and other seeds
    SS s; E a((S)1), b((S)2), c; a.discard(3); b.discard(len < 20000 ? 650 : 5); s << a << C(' ') << b << C('\n') << c << C(' '); E x, y, z((S)8); s >> x >> std::ws >> y >> std::ws >> z; CHECK(!s.fail() && x == a && y == b && z == c, "several", "three engines in one stream do not come back"); }
  { // foreign stream state must not matter: only decimal text is portable, so the flags are the default ones, but width/fill may be set
    SS s; s.fill(C('*')); E a((S)4); a.discard(2); s << a; E b; s >> b; CHECK(!s.fail() && a == b, "fill", "fill character disturbs saving"); }
}
template<class E> void t_save() { if constexpr (!narrow<E>::value) { t_save_c<E, char>(false); t_save_c<E, wchar_t>(true); } else H::eval(); }
// ---- P08
template<class E> bool same_future(const E& a, const E& b, int n) { E x(a), y(b); for (int k = 0; k < n; ++k) if (x() != y()) return false; return true; }
template<class E> void t_eq() {
  H::Rng g = H::rng(); typedef typename seed_of<E>::type S;
  E probe; std::ostringstream o; o << probe; bool large = o.str().size() > 9000;
  for (int r = 0; r < (int)H::n(large ? 12 : 60, large ? 100 : 600); ++r) {
    S s = (S)(g.next() >> g.below(40)); u64 at = g.below(r % 4 ? 40 : 1500);
    E a(s); for (u64 i = 0; i < at; ++i) a();
    std::vector<E> v; std::vector<const char*> nm;
    { E e(s); e.discard(at); v.push_back(e); nm.push_back("discarded"); }
    { E e(s); u64 k = at / 2; e.discard(k); for (u64 i = k; i < at; ++i) e(); v.push_back(e); nm.push_back("half discarded"); }
    if constexpr (!narrow<E>::value) { std::stringstream t; t << a; E e((S)1); e.discard(3); t >> e; v.push_back(e); nm.push_back("restored"); }
    { E e((S)3); e.discard(g.below(900)); e.seed(s); e.discard(at); v.push_back(e); nm.push_back("reseeded"); }
    { E e((S)3); e = a; v.push_back(e); nm.push_back("assigned"); }
    { E e(a); E f(e); v.push_back(f); nm.push_back("copied"); }
    if constexpr (!narrow<E>::value) { E e(s); std::stringstream t; u64 k = g.below(at + 1); for (u64 i = 0; i < k; ++i) e(); t << e; E f; t >> f; for (u64 i = k; i < at; ++i) f(); v.push_back(f); nm.push_back("restored earlier"); }
    E nx(a); nx();
    for (std::size_t i = 0; i < v.size(); ++i) {
      CHECK(v[i] == a && a == v[i] && !(v[i] != a), "equal", nm[i], " engine at position ", at, " is not equal to the drawn one"); E b(v[i]), c(a); bool ok = true; for (int k = 0; k < 60 && ok; ++k) ok = b() == c(); CHECK(ok, "future", nm[i], " engine continues differently");
      CHECK(v[i] == a, "copy-independent", "using a copy changed the ", nm[i], " engine");
      if (!(v[i] == a)) break;
    }
    H::event("engines compared", v.size()); H::seen(H::cat(H::st().scen, s, at));
    // different points of the sequence: unequal iff the futures differ
    for (u64 d : { (u64)1, (u64)2, 1 + g.below(30) }) {
      E b(a); for (u64 i = 0; i < d; ++i) b(); E x(a), y(b); bool fut = true; for (int k = 0; k < 3000 && fut; ++k) fut = x() == y(); if (fut) continue; CHECK(!(a == b) && (a != b) && !(b == a), "unequal", "engines ", d, " draws apart compare equal at position ", at); H::event("unequal pairs"); }
    { S s2 = (S)(s + 1 + (S)g.below(100)); E b(s2); b.discard(at); E x(a), y(b); bool fut = true; for (int k = 0; k < 3000 && fut; ++k) fut = x() == y(); if (!fut) CHECK(!(a == b) && a != b, "unequal", "differently seeded engines compare equal"); else H::event("seeds that coincide"); }
    { // copies are independent in both directions
      E b(a), c(a); auto w = take(b, 20); CHECK(a == c, "copy-independent", "drawing from a copy changed the source"); E d(a); d = b; E f(c); auto w2 = take(f, 20); CHECK(w == w2, "copy-independent", "a copy yields other values"); CHECK(d == b, "assigned", "assignment"); a(); CHECK(d == b && (c != a || same_future(a, c, 50)), "copy-independent", "drawing from the source changed a copy"); }
    { E b(a); E& rb = b; b = rb; CHECK(b == a, "self-assign", "self assignment changed the engine"); E c(std::move(b)); CHECK(c == a, "move", "moved engine differs"); }
    // history with model
    if (r % 6 == 0) { Hist<E> h(r); for (int i = 0; i < 12; ++i) h.op(200); follow(h.e, *h.m, 20, "history", "random history"); H::event("histories"); }
  }
}
// unequal pairs reached through word states that differ only in one part of the state
template<class E> void t_eq_words() {
  if constexpr (has_range_seed<E>::value) {
    H::Rng g = H::rng(77); const bool lossy = deadbits<E>::value || std::string(VERIF_STR(VERIF_GROUP)).find("ADP") != std::string::npos;   // adaptors may drop bits of their base
    std::size_t nw = words_needed<E>();
    for (int r = 0; r < (int)H::n(40, 400); ++r) {
      std::vector<u32> w = words(g, nw, 0); auto w2 = w; w2[r % 3 == 0 ? 0 : r < (int)nw && nw <= 60 ? r : g.below(nw)] ^= 1u << g.below(32);
      auto p = w.begin(), q = w2.begin(); E a(p, w.end()), b(q, w2.end()); E x(a), y(b); bool fut = true; for (int k = 0; k < 3 * (int)nw + 200 && fut; ++k) fut = x() == y();
      if (fut && lossy) continue; CHECK((a == b) == fut, "words", "engines from word lists that differ in one bit compare ", a == b ? "equal" : "unequal", " but their futures are ", fut ? "the same" : "different"); H::event("word pairs"); H::seen(H::cat(H::st().scen, w2));
    }
  }
}
// parts of the state that later values depend on but that are not in the value history
template<class E> struct is_swc : std::false_type {};
template<class T, std::size_t w, std::size_t p, std::size_t r> struct is_swc<br::subtract_with_carry_engine<T,w,p,r>> : std::true_type {};
template<class T, std::size_t w, std::size_t p, std::size_t r> struct is_swc<br::subtract_with_carry_01_engine<T,w,p,r>> : std::true_type {};
template<class E> struct is_disc : std::false_type {}; template<class B, std::size_t p, std::size_t r> struct is_disc<br::discard_block_engine<B,p,r>> : std::true_type {};
template<class E> void t_eq_hidden() {
  H::Rng g = H::rng(78);
  if constexpr (is_swc<E>::value) {   // the carry
    for (int r = 0; r < 40; ++r) {
      E a; a.discard(g.below(200)); std::ostringstream o; o << a; std::string t = o.str(); std::size_t e = t.find_last_not_of(" \n"), k = t.find_last_of(" \n", e);
      if (k == std::string::npos || e - k != 1 || (t[e] != '0' && t[e] != '1')) continue;
      t[e] ^= 1; std::istringstream is(t); E b; if (!(is >> b)) continue;
      if (same_future(a, b, 4000)) continue;
      CHECK(!(a == b) && a != b, "carry", "engines that differ in the carry, and in later values, compare equal"); H::event("state pairs"); }
  }
  if constexpr (is_disc<E>::value) {  // the position within the block
    for (int r = 0; r < 40; ++r) { E a; u64 k = g.below(60); for (u64 i = 0; i < k; ++i) a(); E b(a.base()); bool f = same_future(a, b, 3000); if (f && !(a == b)) continue; CHECK((a == b) == f, "block", "discard_block engines with the same base, ", k, " draws into the blocks, compare ", a == b ? "equal" : "unequal"); H::event("state pairs"); }
  }
}

// two engines whose saved texts differ in one word, one of them freshly restored and the other running
template<class E> void t_eq_text() {
  if constexpr (!narrow<E>::value) {
    H::Rng g = H::rng(79); typedef typename seed_of<E>::type S; E probe; std::ostringstream po; po << probe; if (po.str().size() > 20000) return;
    for (int r = 0; r < (int)H::n(6, 40); ++r) {
      E a((S)(g.next() >> g.below(40))); u64 at = r == 0 ? 1 : 1 + g.below(1300); for (u64 i = 0; i < at; ++i) a();
      std::ostringstream o; o << a; std::istringstream is(o.str()); std::vector<std::string> tok; std::string t; while (is >> t) tok.push_back(t);
      for (std::size_t p = 0; p < tok.size(); ++p) {
        if (tok.size() > 60 && p > 3 && p + 3 < tok.size() && g.below(tok.size()) > 60) continue;
        const std::string w = tok[p].find(".000000") == std::string::npos ? tok[p] : tok[p].substr(0, tok[p].find('.')); if (w.empty() || w.find_first_not_of("0123456789") != std::string::npos) continue;
        u64 v = std::strtoull(w.c_str(), 0, 10); if (v > 1 && (v & (v - 1)) == 0) continue;
        for (int hi = 0; hi < 2; ++hi) {
          if (v < 2 && hi) break; u64 x = v < 2 ? 1 - v : hi ? v ^ ((u64)1 << (63 - __builtin_clzll(v))) : v & (v - 1); std::string n; for (std::size_t i = 0; i < tok.size(); ++i) n += (i ? " " : "") + (i == p ? H::str(x) : tok[i]);
          std::istringstream ns(n); E b; if (!(ns >> b)) continue; bool e1 = a == b, e2 = b == a; H::eval(); H::event("text pairs");
          if (e1 != e2) H::viol("text", "== is not symmetric"); if (e1 != !(a != b)) H::viol("text", "!= is not the negation of ==");
          if ((e1 || e2) && !same_future(a, b, 3000)) H::viol("text", H::cat("after ", at, " draws, an engine restored with word ", p, " changed from ", v, " to ", x, " compares equal but has another future"));
        }
      }
    }
  }
}

#define VP(p) (VERIF_PROP == p)
#if VERIF_PROP == 1
#define RUN(E) t_bounds<E>(); read_states<E>();
#elif VERIF_PROP == 2 || VERIF_PROP == 3 || VERIF_PROP == 4
#define RUN(E) t_seq<E>(); t_std<E>();
#elif VERIF_PROP == 5
#define RUN(E) t_discard<E>(); big_lcg<E>(); t_big<E>();
#elif VERIF_PROP == 6
#define RUN(E) t_seed<E>();
#elif VERIF_PROP == 7
#define RUN(E) t_save<E>();
#elif VERIF_PROP == 8
#define RUN(E) t_eq<E>(); t_eq_words<E>(); t_eq_hidden<E>(); t_eq_text<E>();
#endif
#define X(n) static H::Reg SCEN_CAT(reg_, n)(#n, [] { RUN(E_##n) });
VERIF_GROUP(X)
