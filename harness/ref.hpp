// Independent reference models of every engine: plain 128-bit arithmetic on the
// published recurrences, driven at run time by the engine's template arguments.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include "h.hpp"
#include <memory>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/shuffle_output.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/seed_seq.hpp>

namespace ref {
typedef std::function<std::vector<u32>(std::size_t)> GenFn;   // one generate() call
struct Short {};                                              // range too short

struct Range { const std::vector<u32>* v; std::size_t pos; u32 get() { if (pos >= v->size()) throw Short(); return (*v)[pos++]; } };

struct Model {
  int realbits = 0;              // >0: the engine returns next()/2^realbits
  int wbits = 64;                // width of result_type
  virtual ~Model() {}
  virtual std::unique_ptr<Model> clone() const = 0;
  virtual void seed_default() = 0;
  virtual void seed_int(i128 v) = 0;
  virtual void seed_range(Range& r) = 0;
  virtual void seed_seq(const GenFn& g) = 0;
  virtual i128 next() = 0;
  virtual i128 mn() const = 0;
  virtual i128 mx() const = 0;
  virtual bool exact_seed_words() const { return true; }  // word seeding modelled exactly
};
typedef std::unique_ptr<Model> MP;
template<class D> struct Cloner : Model { MP clone() const override { return MP(new D(static_cast<const D&>(*this))); } };

inline u128 mask(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u128 mulmod(u128 a, u128 b, u128 m) { // m <= 2^64
  return (a % m) * (b % m) % m;
}
inline int ceil_log2(u128 m) { int k = 0; while (((u128)1 << k) < m) ++k; return k; }
inline int floor_log2(u128 m) { int k = 0; while (m >>= 1) ++k; return k; }

// ---- linear congruential
struct Lcg : Cloner<Lcg> {
  u128 a, c, m, x; u64 dflt = 1; bool smallword;
  Lcg(u64 a_, u64 c_, u64 m_, int digits, bool sgn) : a(a_), c(c_), m(m_ ? (u128)m_ : (u128)1 << digits), smallword(digits < 32 || sgn && digits < 32) { wbits = digits; seed_default(); }
  void seed_default() override { seed_int(dflt); }
  void seed_int(i128 v) override { i128 r = v % (i128)m; if (r < 0) r += m; x = (u128)r; if (c % m == 0 && x == 0) x = 1; }
  int words() const { return std::max(1, (ceil_log2(m) + 31) / 32); }
  void from(const std::vector<u32>& w, std::size_t o) { u128 s = 0; for (int j = 0; j < words(); ++j) s = (s + mulmod((u128)1 << (32 * j), w[o + j], m)) % m; seed_int((i128)s); }
  void seed_range(Range& r) override { std::vector<u32> w; for (int j = 0; j < words(); ++j) w.push_back(r.get()); from(w, 0); }
  void seed_seq(const GenFn& g) override { from(g(words() + 3), 3); }
  i128 next() override { x = (mulmod(a, x, m) + c) % m; return (i128)x; }
  i128 mn() const override { return c == 0 ? 1 : 0; }
  i128 mx() const override { return (i128)m - 1; }
  bool exact_seed_words() const override { return !smallword; }
};
// ---- rand48 (POSIX): X(0) = seed<<16 | 0x330e, output the top 31 bits of 48
struct Rand48 : Cloner<Rand48> {
  Lcg l; Rand48() : l(0x5DEECE66Dull, 0xB, (u64)1 << 48, 64, false) { wbits = 32; seed_default(); }
  void seed_default() override { seed_int(1); }
  void seed_int(i128 v) override { l.x = ((u128)(u32)v << 16) | 0x330e; }
  void seed_range(Range& r) override { l.seed_range(r); }
  void seed_seq(const GenFn& g) override { l.seed_seq(g); }
  i128 next() override { return l.next() >> 17; }
  i128 mn() const override { return 0; }
  i128 mx() const override { return 0x7fffffff; }
};
// ---- inversive congruential
inline u128 powmod(u128 b, u128 e, u128 m) { u128 r = 1 % m; b %= m; while (e) { if (e & 1) r = mulmod(r, b, m); b = mulmod(b, b, m); e >>= 1; } return r; }
struct Inv : Lcg {
  using Lcg::Lcg;
  MP clone() const override { return MP(new Inv(*this)); }
  i128 next() override { u128 inv = x == 0 ? 0 : powmod(x, m - 2, m); x = (mulmod(a, inv, m) + c) % m; return (i128)x; }
};
// ---- array engines
inline std::vector<u128> words_to(const std::function<u32()>& get, std::size_t n, int w) {
  std::vector<u128> x(n); int k = (w + 31) / 32;
  for (auto& e : x) { e = 0; for (int j = 0; j < k; ++j) e |= (u128)get() << (32 * j); e &= mask(w); }
  return x;
}
struct ArrayModel : Model {
  int w; std::size_t nn;
  virtual void load(const std::vector<u128>& x) = 0;
  void seed_range(Range& r) override { load(words_to([&] { return r.get(); }, nn, w)); }
  void seed_seq(const GenFn& g) override { std::vector<u32> v = g(nn * ((w + 31) / 32)); std::size_t p = 0; load(words_to([&] { return v[p++]; }, nn, w)); }
  void seed_from_lcg(u64 a, u64 m, u64 v) {
    Lcg l(a, 0, m, 32, false); l.seed_int((i128)v);
    load(words_to([&] { return (u32)l.next(); }, nn, w));
  }
  i128 mn() const override { return 0; }
  i128 mx() const override { return (i128)(realbits ? (u128)1 << realbits : mask(w)); }
};
struct Lf : ArrayModel {
  std::size_t p, q; std::vector<u128> x; std::size_t i = 0;
  Lf(int w_, std::size_t p_, std::size_t q_, int real) : p(p_), q(q_) { w = w_; nn = p; realbits = real; seed_default(); }
  MP clone() const override { return MP(new Lf(*this)); }
  void load(const std::vector<u128>& v) override { x = v; i = 0; }
  void seed_default() override { seed_int(331); }
  void seed_int(i128 v) override { seed_from_lcg(16807, 2147483647, (u32)v); }
  i128 next() override { // x(n) = x(n-p) + x(n-q) mod 2^w ; x holds the last p values as a ring
    u128 v = (x[i] + x[(i + p - q) % p]) & mask(w); x[i] = v; i = (i + 1) % p; return (i128)v;
  }
};
struct Swc : ArrayModel {
  std::size_t s, r; std::vector<u128> x; std::size_t i = 0; int carry = 0;
  Swc(int w_, std::size_t s_, std::size_t r_, int real) : s(s_), r(r_) { w = w_; nn = r; realbits = real; seed_default(); }
  MP clone() const override { return MP(new Swc(*this)); }
  void load(const std::vector<u128>& v) override { x = v; i = 0; carry = v.back() == 0; }
  void seed_default() override { seed_int(19780503); }
  void seed_int(i128 v) override { seed_from_lcg(40014, 2147483563, v == 0 ? 19780503 : (u32)v); }
  i128 next() override {
    i128 y = (i128)x[(i + r - s) % r] - (i128)x[i] - carry;
    carry = y < 0; u128 v = (u128)y & mask(w); x[i] = v; i = (i + 1) % r; return (i128)v;
  }
};
struct Mt : ArrayModel {
  std::size_t n, m, r; u128 a, b, c, d, f; int u, s, t, l; std::vector<u128> x; std::size_t i = 0;
  Mt(int w_, std::size_t n_, std::size_t m_, std::size_t r_, u64 a_, int u_, u64 d_, int s_, u64 b_, int t_, u64 c_, int l_, u64 f_)
    : n(n_), m(m_), r(r_), a(a_), b(b_), c(c_), d(d_), f(f_), u(u_), s(s_), t(t_), l(l_) { w = w_; nn = n; seed_default(); }
  MP clone() const override { return MP(new Mt(*this)); }
  void load(const std::vector<u128>& v) override {
    x = v; i = 0;
    bool z = (x[0] >> r) == 0; for (std::size_t j = 1; j < n; ++j) z = z && x[j] == 0;
    if (z) x[0] = (u128)1 << (w - 1);
  }
  void seed_default() override { seed_int(5489); }
  void seed_int(i128 v) override {
    x.assign(n, 0); i = 0; x[0] = (u128)v & mask(w);
    for (std::size_t j = 1; j < n; ++j) x[j] = (f * (x[j-1] ^ (x[j-1] >> (w - 2))) + j) & mask(w);
  }
  i128 next() override {
    u128 y = (x[i] & (mask(w) & ~mask((int)r))) | (x[(i + 1) % n] & mask((int)r));
    u128 v = x[(i + m) % n] ^ (y >> 1) ^ ((y & 1) ? a : 0);
    x[i] = v; i = (i + 1) % n;
    u128 z = v; z ^= (z >> u) & d; z ^= ((z << s) & mask(w)) & b; z ^= ((z << t) & mask(w)) & c; z ^= z >> l;
    return (i128)(z & mask(w));
  }
};
// ---- Tausworthe (L'Ecuyer 1996)
struct Lfsr : Cloner<Lfsr> {
  int w, k, q, s; u128 z; bool smallword;
  Lfsr(int w_, int k_, int q_, int s_, int digits) : w(w_), k(k_), q(q_), s(s_), smallword(digits < 32) { wbits = digits; seed_default(); }
  void seed_default() override { seed_int(341); }
  void seed_int(i128 v) override { z = (u128)v & mask(w); if (z < ((u128)1 << (w - k))) z += (u128)1 << (w - k); }
  int words() const { return (w + 31) / 32; }
  void seed_range(Range& r) override { u128 v = 0; for (int j = 0; j < words(); ++j) v |= (u128)r.get() << (32 * j); seed_int((i128)v); }
  void seed_seq(const GenFn& g) override { auto a = g(words() + 3); u128 v = 0; for (int j = 0; j < words(); ++j) v |= (u128)a[3 + j] << (32 * j); seed_int((i128)v); }
  i128 next() override {
    u128 b = (((z << q) ^ z) & mask(w)) >> (k - s);
    u128 keep = (mask(w) << (w - k)) & mask(w);
    z = ((((z & keep) << s) & mask(w)) ^ b);
    return (i128)z;
  }
  i128 mn() const override { return 0; }
  i128 mx() const override { return (i128)mask(w); }
  bool exact_seed_words() const override { return !smallword; }
};
struct AddCombine : Cloner<AddCombine> {
  Lcg a, b; AddCombine(const Lcg& x, const Lcg& y) : a(x), b(y) { wbits = a.wbits; }
  void seed_default() override { a.seed_default(); b.seed_default(); }
  void seed_int(i128 v) override { a.seed_int(v); b.seed_int(v); }
  void seed_range(Range& r) override { a.seed_range(r); b.seed_range(r); }
  void seed_seq(const GenFn& g) override { a.seed_seq(g); b.seed_seq(g); }
  i128 next() override { i128 x = a.next(), y = b.next(), m1 = (i128)a.m - 1; i128 r = ((x - y) % m1 + m1) % m1; return r == 0 ? m1 : r; }
  i128 mn() const override { return 1; }
  i128 mx() const override { return (i128)a.m - 1; }
  bool exact_seed_words() const override { return a.exact_seed_words() && b.exact_seed_words(); }
};
// ---- adaptors
struct Wrap : Model {
  MP base;
  Wrap(MP b) : base(std::move(b)) {}
  Wrap(const Wrap& o) : Model(o), base(o.base->clone()) {}
  void seed_default() override { base->seed_default(); init(); }
  void seed_int(i128 v) override { base->seed_int(v); init(); }
  void seed_range(Range& r) override { base->seed_range(r); init(); }
  void seed_seq(const GenFn& g) override { base->seed_seq(g); init(); }
  i128 mn() const override { return base->mn(); }
  i128 mx() const override { return base->mx(); }
  bool exact_seed_words() const override { return base->exact_seed_words(); }
  virtual void init() {}
};
struct Discard : Wrap {
  std::size_t p, r, n = 0;
  Discard(MP b, std::size_t p_, std::size_t r_) : Wrap(std::move(b)), p(p_), r(r_) { realbits = base->realbits; wbits = base->wbits; }
  MP clone() const override { return MP(new Discard(*this)); }
  void init() override { n = 0; }
  i128 next() override { if (n == r) { for (std::size_t i = r; i < p; ++i) base->next(); n = 0; } ++n; return base->next(); }
};
struct Shuffle : Wrap {
  std::size_t k; std::vector<i128> v; i128 y;
  Shuffle(MP b, std::size_t k_) : Wrap(std::move(b)), k(k_) { wbits = base->wbits; init(); }
  MP clone() const override { return MP(new Shuffle(*this)); }
  void init() override { v.clear(); for (std::size_t i = 0; i < k; ++i) v.push_back(base->next()); y = base->next(); }
  i128 next() override {
    u128 R = (u128)(mx() - mn()) + 1; std::size_t j = (std::size_t)((u128)k * (u128)(y - mn()) / R);
    y = v[j]; v[j] = base->next(); return y;
  }
};
struct IndepBits : Wrap {   // [rand.adapt.ibits]
  int w; std::size_t n, n0, w0; u128 R, y0, y1; u64 pulled = 0;
  IndepBits(MP b, int w_) : Wrap(std::move(b)), w(w_) {
    R = (u128)(base->mx() - base->mn()) + 1; std::size_t m = floor_log2(R);
    n = (w + m - 1) / m; calc(); if (n < (std::size_t)w && R - y0 > y0 / n) { ++n; calc(); }
  }
  void calc() { w0 = w / n; n0 = n - w % n; y0 = (R >> w0) << w0; y1 = w0 + 1 >= 127 ? 0 : (R >> (w0 + 1)) << (w0 + 1); }
  MP clone() const override { return MP(new IndepBits(*this)); }
  i128 next() override {
    u128 S = 0;
    for (std::size_t k = 0; k < n; ++k) {
      u128 lim = k < n0 ? y0 : y1; std::size_t ww = k < n0 ? w0 : w0 + 1; u128 u;
      do { u = (u128)(base->next() - base->mn()); ++pulled; } while (u >= lim);
      S = (S << ww) + (u & mask((int)ww));
    }
    return (i128)(S & mask(w));
  }
  i128 mn() const override { return 0; }
  i128 mx() const override { return (i128)mask(w); }
};
struct Xor : Model {
  MP a, b; int s1, s2;
  Xor(MP x, int p, MP y, int q) : a(std::move(x)), b(std::move(y)), s1(p), s2(q) { wbits = a->wbits; }
  Xor(const Xor& o) : Model(o), a(o.a->clone()), b(o.b->clone()), s1(o.s1), s2(o.s2) {}
  MP clone() const override { return MP(new Xor(*this)); }
  void seed_default() override { a->seed_default(); b->seed_default(); }
  void seed_int(i128 v) override { a->seed_int(v); b->seed_int(v); }
  void seed_range(Range& r) override { a->seed_range(r); b->seed_range(r); }
  void seed_seq(const GenFn& g) override { a->seed_seq(g); b->seed_seq(g); }
  i128 next() override { u128 x = (u128)a->next() << s1, y = (u128)b->next() << s2; return (i128)((x ^ y) & mask(wbits)); }
  i128 mn() const override { return 0; }
  i128 mx() const override { u128 t = (((u128)a->mx() << s1) | ((u128)b->mx() << s2)) & mask(wbits); return (i128)(t ? mask(floor_log2(t) + 1) : 0); }
  bool exact_seed_words() const override { return a->exact_seed_words() && b->exact_seed_words(); }
};
// ---- splitmix64 (Steele, Lea, Flood 2014)
struct Split : Cloner<Split> {
  u64 s; Split() { wbits = 64; seed_default(); }
  void seed_default() override { seed_int(0); }
  void seed_int(i128 v) override { s = (u64)v ? (u64)v : 0xA164B43C8F634A13ull; }
  void seed_range(Range&) override {}
  void seed_seq(const GenFn& g) override { auto w = g(2); s = ((u64)w[0] << 32) | w[1]; }
  i128 next() override { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (i128)(z ^ (z >> 31)); }
  i128 mn() const override { return 0; }
  i128 mx() const override { return (i128)~(u64)0; }
};
// ---- MIXMAX N=17, s=0, m=2^36+1 (Savvidy).  The skips are recomputed: bit r of
// the 128-bit stream id jumps by 2^(512+r) applications of the matrix.
struct Mixmax : Cloner<Mixmax> {
  static const int N = 17;
  static constexpr u64 P = ((u64)1 << 61) - 1;
  typedef std::vector<u64> Vec;
  Vec V; int counter;
  Mixmax() { wbits = 64; seed_default(); }
  static u64 mul(u64 a, u64 b) { return (u64)((u128)a * b % P); }
  static Vec step(const Vec& y) {
    // y'_0 = sum y ; y'_i = y'_{i-1} + q_i + m q_{i-1}, q_i = sum_{1<=j<=i} y_j
    Vec r(N); u64 s = 0; for (u64 e : y) s = (s + e) % P;
    r[0] = s; u64 q = 0;
    for (int i = 1; i < N; ++i) { u64 qo = q; q = (q + y[i]) % P; r[i] = (u64)(((u128)r[i-1] + q + mul((u64)1 << 36, qo)) % P); }
    return r;
  }
  typedef std::vector<Vec> Mat;
  static Mat matmul(const Mat& a, const Mat& b) { Mat c(N, Vec(N)); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { u128 s = 0; for (int k = 0; k < N; ++k) s += mul(a[i][k], b[k][j]); c[i][j] = (u64)(s % P); } return c; }
  static const std::vector<Mat>& jumps() {
    static std::vector<Mat> J;
    if (J.empty()) {
      Mat m(N, Vec(N)); for (int j = 0; j < N; ++j) { Vec e(N); e[j] = 1; Vec r = step(e); for (int i = 0; i < N; ++i) m[i][j] = r[i]; }
      for (int i = 0; i < 512; ++i) m = matmul(m, m);
      for (int r = 0; r < 128; ++r) { J.push_back(m); m = matmul(m, m); }
    }
    return J;
  }
  void seed_ids(u32 cl, u32 ma, u32 run, u32 str) {
    V.assign(N, 0); V[0] = 1; counter = 1; u32 id[4] = {str, run, ma, cl};
    for (int k = 0; k < 4; ++k) for (int b = 0; b < 32; ++b) if (id[k] >> b & 1) {
      const Mat& m = jumps()[32 * k + b]; Vec r(N);
      for (int i = 0; i < N; ++i) { u128 s = 0; for (int j = 0; j < N; ++j) s += mul(m[i][j], V[j]); r[i] = (u64)(s % P); }
      V = r;
    }
  }
  void seed_default() override { seed_int(1); }
  void seed_int(i128 v) override { seed_ids(0, 0, (u32)((u64)v >> 32), (u32)(u64)v); }
  void seed_range(Range& r) override { u32 w[4]; for (auto& x : w) x = r.get(); seed_ids(w[0], w[1], w[2], w[3]); }
  void seed_seq(const GenFn& g) override { auto w = g(4); seed_ids(w[0], w[1], w[2], w[3]); }
  i128 next() override { if (counter >= N) { V = step(V); counter = 1; } return (i128)V[counter++]; }
  i128 mn() const override { return 0; }
  i128 mx() const override { return (i128)P; }
};

// ---- from engine type to model
namespace br = boost::random;
template<class E> struct model_of;
template<class I> constexpr int dig() { return (int)(sizeof(I) * 8 - (std::is_signed<I>::value ? 1 : 0)); }
template<class I, I a, I c, I m> struct model_of<br::linear_congruential_engine<I,a,c,m>> { static MP make() { return MP(new Lcg((u64)a, (u64)c, (u64)m, dig<I>(), std::is_signed<I>::value)); } };
template<class I, I a, I b, I p> struct model_of<br::inversive_congruential_engine<I,a,b,p>> { static MP make() { return MP(new Inv((u64)a, (u64)b, (u64)p, dig<I>(), std::is_signed<I>::value)); } };
template<> struct model_of<br::rand48> { static MP make() { return MP(new Rand48); } };
template<class U, int w, unsigned p, unsigned q> struct model_of<br::lagged_fibonacci_engine<U,w,p,q>> { static MP make() { return MP(new Lf(w, p, q, 0)); } };
template<class R, int w, unsigned p, unsigned q> struct model_of<br::lagged_fibonacci_01_engine<R,w,p,q>> { static MP make() { return MP(new Lf(w, p, q, w)); } };
template<class U, std::size_t w, std::size_t s, std::size_t r> struct model_of<br::subtract_with_carry_engine<U,w,s,r>> { static MP make() { return MP(new Swc((int)w, s, r, 0)); } };
template<class R, std::size_t w, std::size_t s, std::size_t r> struct model_of<br::subtract_with_carry_01_engine<R,w,s,r>> { static MP make() { return MP(new Swc((int)w, s, r, (int)w)); } };
template<class U, std::size_t w, std::size_t n, std::size_t m, std::size_t r, U a, std::size_t u, U d, std::size_t s, U b, std::size_t t, U c, std::size_t l, U f>
struct model_of<br::mersenne_twister_engine<U,w,n,m,r,a,u,d,s,b,t,c,l,f>> { static MP make() { return MP(new Mt((int)w,n,m,r,a,(int)u,d,(int)s,b,(int)t,c,(int)l,f)); } };
template<class U, int w, int k, int q, int s> struct model_of<br::linear_feedback_shift_engine<U,w,k,q,s>> { static MP make() { return MP(new Lfsr(w,k,q,s,dig<U>())); } };
template<class A, class B> struct model_of<br::additive_combine_engine<A,B>> { static MP make() { MP a = model_of<A>::make(), b = model_of<B>::make(); return MP(new AddCombine(dynamic_cast<Lcg&>(*a), dynamic_cast<Lcg&>(*b))); } };
template<class B, std::size_t p, std::size_t r> struct model_of<br::discard_block_engine<B,p,r>> { static MP make() { return MP(new Discard(model_of<B>::make(), p, r)); } };
template<class B, std::size_t k> struct model_of<br::shuffle_order_engine<B,k>> { static MP make() { return MP(new Shuffle(model_of<B>::make(), k)); } };
template<class B, std::size_t w, class U> struct model_of<br::independent_bits_engine<B,w,U>> { static MP make() { MP m(new IndepBits(model_of<B>::make(), (int)w)); m->wbits = dig<U>(); return m; } };
template<class A, int s1, class B, int s2> struct model_of<br::xor_combine_engine<A,s1,B,s2>> { static MP make() { return MP(new Xor(model_of<A>::make(), s1, model_of<B>::make(), s2)); } };
template<> struct model_of<br::splitmix64> { static MP make() { return MP(new Split); } };
template<> struct model_of<br::mixmax> { static MP make() { return MP(new Mixmax); } };

// value of an engine output on the model's scale
template<class T> i128 ival(const T& v, const Model& m) {
  if constexpr (std::is_floating_point<T>::value) {
    long double x = ldexpl((long double)v, m.realbits); i128 r = (i128)x;
    return (long double)r == x ? r : (i128)-999999999;
  } else return (i128)v;
}
} // namespace ref
#endif
