// P29: wide and multiprecision number types.  VERIF_PART selects a group.
#include "h.hpp"
#include <limits>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/multiprecision/cpp_dec_float.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/generate_canonical.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/seed_seq.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/triangle_distribution.hpp>
#include <boost/random/cauchy_distribution.hpp>
#include <boost/random/weibull_distribution.hpp>
#include <boost/random/extreme_value_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/student_t_distribution.hpp>
#include <boost/random/fisher_f_distribution.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/negative_binomial_distribution.hpp>
#include <boost/math/distributions.hpp>
namespace br = boost::random; namespace mp = boost::multiprecision;
typedef mp::number<mp::cpp_int_backend<>, mp::et_off> Z;      // oracle arithmetic
typedef mp::number<mp::cpp_bin_float<3000, mp::digit_base_2, void, std::int64_t>, mp::et_off> HF;   // oracle reals
typedef mp::number<mp::cpp_int_backend<96, 96, mp::unsigned_magnitude, mp::unchecked, void> > uint96_t;
typedef mp::number<mp::cpp_int_backend<65, 65, mp::unsigned_magnitude, mp::unchecked, void> > uint65_t;
typedef mp::number<mp::cpp_int_backend<512, 0, mp::signed_magnitude, mp::unchecked>, mp::et_off> big_et_off;
// which engine and result types multiprecision can mix: native with anything, checked or not, expression templates or not
template<class T> struct kind { static const int value = 0; };
template<auto A, auto B, mp::cpp_integer_type S, mp::cpp_int_check_type C, class Al, mp::expression_template_option E> struct kind<mp::number<mp::cpp_int_backend<A, B, S, C, Al>, E> > { static const int value = C == mp::checked ? 1 : A == 512 ? 3 : 2; };
template<class A, class B> struct mixable { static const bool value = kind<A>::value == 0 || kind<B>::value == 0 || kind<A>::value == kind<B>::value; };
inline Z pw(unsigned k) { return Z(1) << k; }
inline std::string zs(const Z& z) { if (z < 0) { Z m = -z; return "-" + zs(m); } std::string d = z.str(); if (d.size() <= 45) return d; std::ostringstream o; o << std::hex << z; d = o.str(); return d.size() <= 40 ? "0x" + d : "0x" + d.substr(0, 16) + ".." + d.substr(d.size() - 16) + H::cat(" (", d.size() * 4, " bits)"); }
#ifdef BOOST_HAS_INT128
inline Z toZ(u128 v) { return (Z((u64)(v >> 64)) << 64) + Z((u64)v); }
inline Z toZ(i128 v) { return v < 0 ? -toZ((u128)0 - (u128)v) : toZ((u128)v); }
#endif
template<class T> Z toZ(const T& v) { return Z(v); }
template<class T> struct to_ { static T z(const Z& v) { return static_cast<T>(v); } };
#ifdef BOOST_HAS_INT128
template<> struct to_<u128> { static u128 z(const Z& v) { Z lo = v & (pw(64) - 1), hi = v >> 64; return ((u128)(u64)hi << 64) | (u64)lo; } };
template<> struct to_<i128> { static i128 z(const Z& v) { return v < 0 ? -(i128)to_<u128>::z(-v - 1) - 1 : (i128)to_<u128>::z(v); } };
#endif
template<class T> bool fits(const Z& v) { typedef std::numeric_limits<T> L; if (!L::is_bounded) return L::is_signed || v >= 0; return v >= toZ(T((L::min)())) && v <= toZ(T((L::max)())); }
// shared source of digits
struct WSrc {
  std::vector<Z> script; std::size_t pos = 0; u64 drawn = 0, limit = ~0ull; H::Rng* rng = 0; int mode = 1; std::vector<Z> used;
  struct Over {};
  static Z below(H::Rng& g, const Z& R) { unsigned b = R == 1 ? 1 : (unsigned)mp::msb(Z(R - 1)) + 1; for (;;) { Z v = 0; for (unsigned k = 0; k < b; k += 64) v |= Z(b - k < 64 ? g.next() >> (64 - (b - k)) : g.next()) << k; if (v < R) return v; } }
  Z next(const Z& R) {
    if (drawn++ >= limit) throw Over();
    Z v; if (pos < script.size()) v = script[pos++]; else if (mode == 0) v = 0; else v = below(*rng, R);
    if (mode == 2 && pos >= script.size()) { unsigned k = (unsigned)rng->below(6); if (k == 0) v = 0; else if (k == 1) v = R - 1; else if (k == 2) v = v >> (unsigned)rng->below(200); }
    used.push_back(v); return v;
  }
};
// integer engine of type T with an arbitrary range
template<class T> struct WE {
  typedef T result_type; T lo, hi; WSrc* s; Z zl, R;
  WE(WSrc& src, const Z& a, const Z& b) : lo(to_<T>::z(a)), hi(to_<T>::z(b)), s(&src), zl(a), R(b - a + 1) {}
  T min() const { return lo; } T max() const { return hi; }
  T operator()() { return to_<T>::z(zl + s->next(R)); }
};
// real engine of type T giving d / 2^digits (limited to 400 bits of digits)
template<class T> struct WR {
  typedef T result_type; WSrc* s; Z R; static const int D = std::numeric_limits<T>::digits;
  WR(WSrc& src) : s(&src), R(pw(D)) {}
  static T min() { return 0; } static T max() { return 1; }
  T operator()() { using std::ldexp; return ldexp(T(s->next(R)), -D); }
};
template<> inline double WR<double>::operator()() { return std::ldexp((double)(u64)s->next(R), -53); }
template<> inline float WR<float>::operator()() { return std::ldexp((float)(u64)s->next(R), -24); }

template<class T> const char* nm();
#define NAME(T, s) template<> inline const char* nm<T>() { return s; }
#ifdef BOOST_HAS_INT128
NAME(u128, "unsigned __int128") NAME(i128, "__int128")
#endif
NAME(mp::uint128_t, "uint128_t") NAME(mp::checked_uint128_t, "checked_uint128_t") NAME(uint96_t, "uint96_t") NAME(uint65_t, "uint65_t") NAME(mp::uint256_t, "uint256_t") NAME(mp::uint1024_t, "uint1024_t") NAME(mp::checked_uint1024_t, "checked_uint1024_t")
NAME(mp::cpp_int, "cpp_int") NAME(mp::checked_cpp_int, "checked_cpp_int") NAME(big_et_off, "cpp_int without expression templates")
typedef unsigned char u8_;
NAME(u32, "uint32") NAME(u64, "uint64") NAME(i64, "int64") NAME(unsigned char, "uint8") NAME(std::int32_t, "int32") NAME(unsigned short, "uint16")
#ifdef BOOST_HAS_INT128
#define WIDE(X) X(u128) X(i128) X(mp::uint128_t) X(mp::checked_uint128_t) X(uint96_t) X(uint65_t) X(mp::uint256_t) X(mp::uint1024_t) X(mp::checked_uint1024_t) X(mp::cpp_int) X(mp::checked_cpp_int) X(big_et_off)
#else
#define WIDE(X) X(mp::uint128_t) X(mp::checked_uint128_t) X(uint96_t) X(uint65_t) X(mp::uint256_t) X(mp::uint1024_t) X(mp::checked_uint1024_t) X(mp::cpp_int) X(mp::checked_cpp_int) X(big_et_off)
#endif
#define WIDE_ENG(X) X(mp::uint128_t) X(mp::checked_uint128_t) X(uint65_t) X(mp::uint1024_t) X(mp::cpp_int)
inline double zchi(double x, double k) { return (std::pow(x / k, 1.0 / 3) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k)); }
inline bool same_digits(const std::vector<Z>& a, const std::vector<Z>& b) { return a == b; }
inline std::string sm(const std::vector<Z>& v) { std::string r; for (std::size_t i = 0; i < v.size() && i < 6; ++i) r += (i ? "," : "") + zs(v[i]); return r; }

// draw: the request answered from a stream; the values and how many engine values each took
struct Out { std::vector<Z> v; std::vector<u64> n; bool over = false; std::vector<Z> used; std::string what; };
template<class D, class E> Out run(D d, E e, WSrc& s, H::Rng g, const std::vector<Z>& script, int mode, int n) {
  s.script = script; s.pos = 0; s.drawn = 0; s.used.clear(); s.rng = &g; s.mode = mode; s.limit = 400000; Out o;
  try { for (int i = 0; i < n; ++i) { u64 b = s.drawn; o.v.push_back(toZ(typename D::result_type(d(e)))); o.n.push_back(s.drawn - b); } } catch (WSrc::Over&) { o.over = true; } catch (std::exception& x) { o.what = x.what(); }
  o.used = s.used; return o;
}
inline bool operator==(const Out& a, const Out& b) { return a.v == b.v && a.n == b.n && a.over == b.over && a.what == b.what; }
inline std::string show(const Out& o) { return H::cat(o.over ? "no result " : "", "values ", sm(o.v), " after ", o.n, " engine values"); }

#if VERIF_PART == 1 || VERIF_PART == 2
// ---- integer requests: every type against the native 64-bit answer
template<bool small, class E, class T> void agree_one(E e, WSrc& s, const Z& a, const Z& b, H::Rng g, const std::vector<Z>& sc, int mode, const Out& ref, const std::string& w) {
  if constexpr (mixable<typename E::result_type, T>::value) { if (!fits<T>(a) || !fits<T>(b)) return;
  Out o; if constexpr (small) o = run(br::uniform_smallint<T>(to_<T>::z(a), to_<T>::z(b)), e, s, g, sc, mode, (int)ref.v.size()); else o = run(br::uniform_int_distribution<T>(to_<T>::z(a), to_<T>::z(b)), e, s, g, sc, mode, (int)ref.v.size());
  CHECK(o == ref, small ? "smallint-native" : "native", small ? "uniform_smallint<" : "uniform_int<", nm<T>(), ">(", zs(a), ",", zs(b), ") from ", w, ": ", show(o), "; the native type gives ", show(ref), "; engine values ", sm(ref.used));
  for (auto& v : o.v) CHECK(v >= a && v <= b, "outside", "uniform_int<", nm<T>(), ">(", zs(a), ",", zs(b), ") from ", w, " gave ", zs(v));
  H::event("results compared with the native type", o.v.size()); H::seen(H::cat(nm<T>(), w, zs(a), zs(b))); }
}
inline std::vector<Z> widths64(H::Rng& g, int extra) {
  std::vector<Z> r; for (u64 v : { 0ull, 1ull, 2ull, 3ull, 5ull, 9ull, 99ull, 255ull, 256ull, 65535ull, 65536ull, 16777215ull, 4294967294ull, 4294967295ull, 4294967296ull, (1ull << 48) - 1, (1ull << 53), (1ull << 62), (1ull << 63) - 1, 1ull << 63, 0xAAAAAAAAAAAAAAAAull, ~0ull - 1, ~0ull }) r.push_back(Z(v));
  for (int i = 0; i < extra; ++i) r.push_back(Z(g.next() >> g.below(64))); return r;
}
inline std::vector<std::vector<Z>> scripts(const Z& R, H::Rng& g) {
  const Z t = R - 1, h = t / 2; std::vector<std::vector<Z>> r = { {}, std::vector<Z>(6, Z(0)), std::vector<Z>(6, t), { 0, t, 0, t }, { t, 0, t, 0 }, { h, Z(h + 1), h, t } };
  for (int i = 0; i < 2; ++i) { std::vector<Z> v; for (int k = 0; k < 5; ++k) v.push_back(WSrc::below(g, R)); r.push_back(v); } return r;
}
template<class E> void against_native(E e, WSrc& s, const std::string& w, int extra) {
  H::Rng g = H::rng(H::hash(w)); const Z lo64 = toZ(std::numeric_limits<i64>::min()); auto scs = scripts(e.R, g);
  for (auto& wd : widths64(g, extra)) for (int pl = 0; pl < 3; ++pl) {
    Z a = pl == 0 ? Z(0) : pl == 1 ? Z(pw(64) - 1 - wd) : Z(lo64 + WSrc::below(g, pw(64) - wd)); Z b = a + wd; if (H::quick() && g.below(2)) continue;
    for (int k = 0; k < (int)scs.size(); ++k) {
      H::Rng gg = H::rng(g.next()); int mode = k & 1 ? 1 : 2; Out ref;
      if (a >= 0) ref = run(br::uniform_int_distribution<u64>((u64)a, (u64)b), e, s, gg, scs[k], mode, 4); else if (b < pw(63)) ref = run(br::uniform_int_distribution<i64>((i64)a, (i64)b), e, s, gg, scs[k], mode, 4); else continue;
#define X(T) agree_one<false, E, T>(e, s, a, b, gg, scs[k], mode, ref, w);
      WIDE(X)
#undef X
      // uniform_smallint
      if constexpr (std::numeric_limits<typename E::result_type>::is_integer && std::is_integral<typename E::result_type>::value) {
        Out r2; if (a >= 0) r2 = run(br::uniform_smallint<u64>((u64)a, (u64)b), e, s, gg, scs[k], mode, 2); else r2 = run(br::uniform_smallint<i64>((i64)a, (i64)b), e, s, gg, scs[k], mode, 2);
#define X(T) agree_one<true, E, T>(e, s, a, b, gg, scs[k], mode, r2, w);
        WIDE(X)
#undef X
      }
      if (a == 0 && b < pw(63) && k == 0) { // random_number_generator
        u64 n = (u64)b + 1; H::Rng r1 = gg; s.script.clear(); s.pos = 0; s.rng = &r1; s.mode = 1; s.drawn = 0; s.limit = 100000; E f = e; br::random_number_generator<E, u64> rn(f); Z want = Z(rn(n));
        H::Rng r2 = gg; s.rng = &r2; br::random_number_generator<E, mp::cpp_int> rz(f); Z got = toZ(mp::cpp_int(rz(mp::cpp_int(n)))); CHECK(want == got, "rng-native", "random_number_generator<cpp_int>(", n, ") gave ", zs(got), ", the native type ", zs(want));
        H::Rng r3 = gg; s.rng = &r3; br::random_number_generator<E, mp::uint128_t> ru(f); got = toZ(mp::uint128_t(ru(mp::uint128_t(n)))); CHECK(want == got, "rng-native", "random_number_generator<uint128_t>(", n, ") gave ", zs(got), ", the native type ", zs(want));
      }
    }
  }
  H::sample(w);
}
// the same engine range in a wide engine type answers as the native engine type does
template<class T, class N> void wide_engine_one(const Z& el, const Z& eh, const Z& shift, H::Rng& g) {
  Z a0 = el + shift, b0 = eh + shift; if (!fits<T>(a0) || !fits<T>(b0)) return;
  WSrc s; WE<N> ne(s, el, eh); WE<T> we(s, a0, b0); auto scs = scripts(ne.R, g); std::string w = H::cat(nm<T>(), " engine [", zs(a0), ",", zs(b0), "]");
  for (auto& wd : widths64(g, 2)) { if (g.below(3)) continue; for (int k = 0; k < (int)scs.size(); ++k) {
    H::Rng gg = H::rng(g.next()); Z b = wd; Out ref = run(br::uniform_int_distribution<u64>(0, (u64)b), ne, s, gg, scs[k], 2, 3);
    Out o = run(br::uniform_int_distribution<u64>(0, (u64)b), we, s, gg, scs[k], 2, 3); CHECK(o == ref, "wide-engine", "uniform_int<uint64>(0,", zs(b), ") from ", w, ": ", show(o), "; a native engine gives ", show(ref));
#define X(U) if constexpr (mixable<T, U>::value) if (fits<U>(b)) { o = run(br::uniform_int_distribution<U>(to_<U>::z(0), to_<U>::z(b)), we, s, gg, scs[k], 2, 3); CHECK(o == ref, "wide-engine", "uniform_int<", nm<U>(), ">(0,", zs(b), ") from ", w, ": ", show(o), "; native types give ", show(ref)); }
    X(mp::uint128_t) X(uint65_t) X(mp::uint1024_t) X(mp::cpp_int) X(mp::checked_cpp_int)
#undef X
    if constexpr (std::numeric_limits<T>::is_bounded) {
      Out r2 = run(br::uniform_smallint<u64>(0, (u64)b), ne, s, gg, scs[k], 2, 2);
#define X(U) if (fits<U>(b)) { o = run(br::uniform_smallint<U>(to_<U>::z(0), to_<U>::z(b)), we, s, gg, scs[k], 2, 2); CHECK(o == r2, "wide-engine-smallint", "uniform_smallint<", nm<U>(), ">(0,", zs(b), ") from ", w, ": ", show(o), "; native types give ", show(r2)); }
      X(T)
#undef X
    }
    H::event("results from wide engines", 9); H::seen(w + zs(b));
  } }
}
template<class T> void wide_engine() {
  H::Rng g = H::rng(31); 
  for (int t = 0; t < (int)H::n(14, 120); ++t) {
    Z R = t < 4 ? Z(t + 2) : t < 8 ? pw(8u * (unsigned)(t - 3)) : Z((g.next() >> g.below(62)) + 2); if (t == 8) R = pw(64); if (t == 9) R = 2147483646;
    for (unsigned sh : { 0u, 64u, 100u, 127u, 600u, 1023u }) wide_engine_one<T, u64>(Z(0), R - 1, sh == 0 ? Z(0) : Z(pw(sh) + WSrc::below(g, pw(sh - 1))), g);
    if constexpr (std::numeric_limits<T>::is_bounded) { Z m = toZ(T((std::numeric_limits<T>::max)())); wide_engine_one<T, u64>(Z(0), R - 1, m - (R - 1), g); }
    else { wide_engine_one<T, u64>(Z(0), R - 1, -(pw(90) + 3), g); wide_engine_one<T, u64>(Z(0), R - 1, Z(-1), g); }
  }
  H::sample(nm<T>());
}
#endif

#if VERIF_PART == 1
#define X(B) SCEN("agree with native from " #B) { H::Rng g = H::rng(1); typedef std::numeric_limits<B> L; const Z mn = toZ(L::min()), mx = toZ(L::max()); \
  std::vector<std::pair<Z,Z>> es = { { mn, mx }, { mn, mn + 1 }, { mx - 6, mx }, { mn, mn + 9 } }; for (int i = 0; i < (int)H::n(3, 25); ++i) { Z a = mn + WSrc::below(g, mx - mn), b = mn + WSrc::below(g, mx - mn); if (a == b) continue; if (a > b) std::swap(a, b); es.push_back({ a, b }); } \
  for (auto& p : es) { WSrc s; against_native(WE<B>(s, p.first, p.second), s, H::cat("engine " #B " [", zs(p.first), ",", zs(p.second), "]"), (int)H::n(3, 30)); } }
X(u8_) X(u32) X(std::int32_t) X(u64) X(i64)
#undef X
#endif
#if VERIF_PART == 2
SCEN("agree with native from float engines") { WSrc s; against_native(WR<float>(s), s, "float engine", (int)H::n(6, 60)); }
SCEN("agree with native from double engines") { WSrc s; against_native(WR<double>(s), s, "double engine", (int)H::n(6, 60)); }
#define X(T) SCEN("engine of type " #T) { wide_engine<T>(); }
WIDE_ENG(X)
#undef X
#endif

#if VERIF_PART == 3
// ---- requests that only wide types can represent
struct Req { Z a, b; };
inline std::vector<Req> reqs(H::Rng& g, int extra, bool neg) {
  std::vector<Req> r; for (unsigned k : { 64u, 65u, 80u, 95u, 96u, 100u, 127u, 128u, 129u, 192u, 255u, 256u, 257u, 500u, 512u, 1000u, 1023u, 1024u, 2048u }) for (int d = -2; d <= 1; ++d) { Z w = pw(k) + d; r.push_back({ 0, w }); r.push_back({ 12345, w + 12345 }); }
  r.push_back({ 0, pw(100) * 3 }); r.push_back({ 0, (pw(128) - 1) / 3 * 2 }); r.push_back({ 0, (pw(1024) - 1) / 3 * 2 + 1 });
  for (unsigned k : { 96u, 128u, 256u, 1024u }) { r.push_back({ pw(k) - 1 - pw(k - 1), pw(k) - 1 }); r.push_back({ pw(k) - 1 - pw(40), pw(k) - 1 }); r.push_back({ pw(k) - 1, pw(k) - 1 }); }
  for (int i = 0; i < extra; ++i) { unsigned k = 65 + (unsigned)g.below(1100); Z w = WSrc::below(g, pw(k)), a = WSrc::below(g, pw(1 + (unsigned)g.below(200))); r.push_back({ a, a + w }); }
  if (neg) { std::size_t n = r.size(); for (std::size_t i = 0; i < n; ++i) { Z w = r[i].b - r[i].a; r.push_back({ -w - 1, Z(-1) }); r.push_back({ -(w / 2), w - w / 2 }); } r.push_back({ -pw(127), pw(127) - 1 }); r.push_back({ -pw(127), Z(0) }); r.push_back({ -pw(127), -pw(127) + 10 }); }
  return r;
}
template<class E, class T> void wide_req(E e, WSrc& s, const Req& q, H::Rng g, Out& ref, std::string& refname, const std::vector<Z>& sc, int mode, const std::string& w) {
  if constexpr (mixable<typename E::result_type, T>::value) { if (!fits<T>(q.a) || !fits<T>(q.b)) return;
  Out o = run(br::uniform_int_distribution<T>(to_<T>::z(q.a), to_<T>::z(q.b)), e, s, g, sc, mode, 4); std::string m = H::cat("uniform_int<", nm<T>(), ">(", zs(q.a), ",", zs(q.b), ") from ", w);
  CHECK(!o.over, "endless", m, ": no result after 400000 engine values"); for (auto& v : o.v) CHECK(v >= q.a && v <= q.b, "outside", m, " gave ", zs(v));
  if (!o.what.empty()) { H::viol("throws", H::cat(m, ": ", o.what, " with engine values ", sm(o.used))); return; }
  if (refname.empty()) { ref = o; refname = nm<T>(); } else CHECK(o == ref, "types-differ", m, ": ", show(o), "; ", refname, " gives ", show(ref));
  H::event("wide results", o.v.size()); H::seen(m); }
}
template<class E> void wide_reqs(E e, WSrc& s, const std::string& w) {
  H::Rng g = H::rng(H::hash(w)); 
  for (auto& q : reqs(g, (int)H::n(20, 200), true)) { if (H::quick() && g.below(3)) continue; const Z t = e.R - 1; std::vector<std::vector<Z>> scs = { {}, std::vector<Z>(40, t), std::vector<Z>(40, Z(0)), {} }; int k = 0;
    for (auto& sc : scs) { H::Rng gg = H::rng(g.next()); Out ref; std::string rn; int mode = k++ == 0 ? 1 : 2;
#define X(T) wide_req<E, T>(e, s, q, gg, ref, rn, sc, mode, w);
      WIDE(X)
#undef X
    } }
  H::sample(w);
}
// uniform: bins of the value, residues, successive pairs
template<class T, class E> void wide_stat(E e, WSrc& s, const Req& q, const std::string& w, int n) {
  if constexpr (mixable<typename E::result_type, T>::value) { if (!fits<T>(q.a) || !fits<T>(q.b)) return; H::Rng g = H::rng(H::hash(w) ^ H::hash(zs(q.b))); s.script.clear(); s.rng = &g; s.mode = 1; s.drawn = 0; s.limit = ~0ull; s.used.clear();
  br::uniform_int_distribution<T> d(to_<T>::z(q.a), to_<T>::z(q.b)); Z N = q.b - q.a + 1; std::vector<double> top(16), m16(16), m3(3), m5(5), m7(7), pair(64); int pb = -1;
  for (int i = 0; i < n; ++i) { Z k = toZ(T(d(e))) - q.a; s.used.clear(); if (!(k >= 0 && k < N)) { H::viol("outside", H::cat("uniform_int<", nm<T>(), ">(", zs(q.a), ",", zs(q.b), ") from ", w, " gave ", zs(k + q.a))); return; } int b = (int)(k * 16 / N); top[b]++; m16[(int)(k % 16)]++; m3[(int)(k % 3)]++; m5[(int)(k % 5)]++; m7[(int)(k % 7)]++; if (pb >= 0) pair[pb * 8 + b / 2]++; pb = b / 2; }
  auto test = [&](std::vector<double>& c, const char* what) { double x = 0, ex = n / (double)c.size(); for (double v : c) x += (v - ex) * (v - ex) / ex; double z = zchi(x, c.size() - 1); CHECK(z < 7.5, "biased", "uniform_int<", nm<T>(), ">(", zs(q.a), ",", zs(q.b), ") from ", w, ": chi-square of ", what, " z ", z, " over ", n, " values"); };
  test(top, "16 value bins"); test(m16, "residues mod 16"); test(m3, "residues mod 3"); test(m5, "residues mod 5"); test(m7, "residues mod 7"); test(pair, "successive pairs"); H::eval(n); H::event("values in uniformity tests", n); H::seen(H::cat(nm<T>(), zs(q.a), " ", zs(q.b), w)); }
}
template<class T> void wide_stats() {
  H::Rng g = H::rng(77); std::vector<Req> qs; for (auto& q : reqs(g, 10, true)) if (fits<T>(q.a) && fits<T>(q.b) && q.b - q.a > 1000000) qs.push_back(q); for (unsigned k = 63; k <= 128; ++k) { Req q = { Z(k), pw(k) / 3 * 2 }; if (fits<T>(q.b)) qs.push_back(q); } int n = (int)H::n(4000, 30000);
  for (int i = 0; i < (int)H::n(12, 150); ++i) { auto& q = qs[g.below(qs.size())]; WSrc s; Z R = i % 3 == 0 ? Z(g.below(200) + 2) : i % 3 == 1 ? Z(g.next() >> g.below(40)) + 2 : pw(32);
    if (R > pw(32)) wide_stat<T>(WE<u64>(s, 0, R - 1), s, q, H::cat("uint64 engine of ", zs(R), " values"), n); else wide_stat<T>(WE<u32>(s, 0, R - 1), s, q, H::cat("uint32 engine of ", zs(R), " values"), n);
    Z RW = pw(80 + (unsigned)g.below(200)) - 1 - g.below(1000); wide_stat<T>(WE<mp::cpp_int>(s, Z(-3), RW), s, q, H::cat("cpp_int engine of ", zs(RW), " values"), n); }
  H::sample(nm<T>());
}
// every sequence of engine values: each result as often as any other
template<class ET, class T> void exact_one(const Z& ea, const Z& eb, const Z& a, const Z& b, u64 budget, bool small) {
  if constexpr (mixable<ET, T>::value) { if (!fits<ET>(ea) || !fits<ET>(eb) || !fits<T>(a) || !fits<T>(b)) return; WSrc s; s.mode = 0; WE<ET> e(s, ea, eb); u64 R = (u64)e.R, N = (u64)Z(b - a) + 1; int D = 0; double nodes = 1; while (nodes * R <= budget && D < 24) { nodes *= R; ++D; } if (!D) return;
  br::uniform_int_distribution<T> d(to_<T>::z(a), to_<T>::z(b)); std::map<int, std::vector<u64>> cnt; u64 leaves = 0; s.limit = D; std::string w = H::cat("uniform_int<", nm<T>(), ">(", zs(a), ",", zs(b), ") from ", nm<ET>(), " engine [", zs(ea), ",", zs(eb), "]"); (void)small;
  for (;;) { s.pos = 0; s.drawn = 0; s.used.clear(); bool over = false; Z v; try { v = toZ(T(d(e))); } catch (WSrc::Over&) { over = true; }
    if (!over) { ++leaves; if (!(v >= a && v <= b)) { H::viol("outside", H::cat(w, " gave ", zs(v))); return; } auto& c = cnt[(int)s.used.size()]; if (c.empty()) c.assign(N, 0); c[(u64)Z(v - a)]++; }
    s.script = s.used; while (!s.script.empty() && s.script.back() == e.R - 1) s.script.pop_back(); if (s.script.empty()) break; s.script.back() += 1; }
  H::eval(leaves); H::event("engine sequences", leaves); if (leaves) H::seen(w); else H::event("pairs beyond the budget");
  for (auto& c : cnt) for (u64 i = 0; i < N; ++i) if (c.second[i] != c.second[0]) { H::viol("biased", H::cat(w, ": of all sequences of ", c.first, " engine values ", c.second[0], " give the first value but ", c.second[i], " give value ", i)); return; } }
}
template<class ET, class T> void exact() {
  H::Rng g = H::rng(4); auto base = [&](bool bounded, const Z& mx, bool sg, const Z& span, int k) { if (k % 3 == 0) return Z(0); if (k % 3 == 1) return bounded ? Z(mx - span) : Z(pw(300) + g.next()); return sg ? Z(-Z(g.below(20))) : Z(g.next()); };
  typedef std::numeric_limits<ET> LE; typedef std::numeric_limits<T> LT;
  for (int i = 0; i < (int)H::n(60, 500); ++i) { u64 R = 2 + (i < 30 ? (u64)(i % 10) : g.below(40)), N = 1 + g.below(i & 1 ? 20 : 120); if (i % 5 == 3) { N = R; while (N * R < 300 && g.coin()) N *= R; } if (i % 5 == 4) { N = R * (1 + g.below(5)) + g.below(2); }
    Z ea = base(LE::is_bounded, LE::is_bounded ? toZ(ET((LE::max)())) : Z(0), LE::is_signed, R - 1, i), a = base(LT::is_bounded, LT::is_bounded ? toZ(T((LT::max)())) : Z(0), LT::is_signed, N - 1, i / 3);
    exact_one<ET, T>(ea, ea + (R - 1), a, a + (N - 1), H::n(1500, 40000), false); }
}
SCEN("wide requests from uint8 engines") { H::Rng g = H::rng(1); for (Z R : { Z(2), Z(3), Z(200), Z(256) }) { WSrc s; wide_reqs(WE<u8_>(s, 256 - R, 255), s, H::cat("uint8 engine of ", zs(R), " values")); } }
SCEN("wide requests from uint32 engines") { for (Z R : { pw(32), Z(2147483646) }) { WSrc s; wide_reqs(WE<u32>(s, pw(32) - R, pw(32) - 1), s, H::cat("uint32 engine of ", zs(R), " values")); } }
SCEN("wide requests from int64 engines") { WSrc s; wide_reqs(WE<i64>(s, -pw(63), pw(63) - 1), s, "int64 engine"); wide_reqs(WE<i64>(s, Z(-5), pw(62)), s, "int64 engine [-5,2^62]"); }
SCEN("wide requests from double engines") { WSrc s; wide_reqs(WR<double>(s), s, "double engine"); }
SCEN("wide requests from uint128_t engines") { WSrc s; wide_reqs(WE<mp::uint128_t>(s, 0, pw(128) - 1), s, "uint128_t engine"); wide_reqs(WE<mp::uint128_t>(s, 77, pw(100)), s, "uint128_t engine [77,2^100]"); }
SCEN("wide requests from cpp_int engines") { WSrc s; wide_reqs(WE<mp::cpp_int>(s, -pw(70), pw(1023)), s, "cpp_int engine [-2^70,2^1023]"); wide_reqs(WE<mp::cpp_int>(s, 1, pw(127)), s, "cpp_int engine [1,2^127]"); }
SCEN("wide requests from uint1024_t engines") { WSrc s; wide_reqs(WE<mp::uint1024_t>(s, 0, pw(1024) - 1), s, "uint1024_t engine"); }
#define X(T) SCEN("uniformity of " #T) { wide_stats<T>(); } SCEN("all sequences for " #T) { exact<u8_, T>(); exact<std::int32_t, T>(); exact<mp::uint128_t, T>(); exact<mp::cpp_int, T>(); exact<uint65_t, T>(); }
WIDE(X)
#undef X
SCEN("all sequences for uint64 from wide engines") { exact<mp::uint128_t, u64>(); exact<mp::cpp_int, u64>(); exact<mp::checked_uint128_t, u64>(); exact<uint65_t, i64>(); exact<mp::cpp_int, i64>(); exact<mp::uint1024_t, u8_>(); }
#endif

#if VERIF_PART == 4
// ---- bit-width adaptor: [rand.adapt.ibits] over exact arithmetic
struct IModel { std::size_t n, n0, w0; Z y0, y1, m0, m1; IModel(const Z& R, std::size_t w) { std::size_t m = mp::msb(R); n = (w + m - 1) / m; auto set = [&] { w0 = w / n; n0 = n - w % n; y0 = (R >> (unsigned)w0) << (unsigned)w0; y1 = (R >> (unsigned)(w0 + 1)) << (unsigned)(w0 + 1); m0 = pw((unsigned)w0) - 1; m1 = pw((unsigned)w0 + 1) - 1; }; set(); if (n < w && R - y0 > y0 / n) { ++n; set(); } } };
inline Z imodel(const IModel& M, const std::function<Z()>& dig) { Z S = 0; for (std::size_t k = 0; k < M.n; ++k) { bool a = k < M.n0; Z u; do u = dig(); while (u >= (a ? M.y0 : M.y1)); S = (S << (unsigned)(M.w0 + !a)) + (u & (a ? M.m0 : M.m1)); } return S; }
template<class ET, std::size_t w, class T> void ibits(const Z& a, const Z& b, const std::string& en) {
  if (!fits<ET>(a) || !fits<ET>(b)) return; WSrc s; WE<ET> e(s, a, b); const Z R = e.R; typedef br::independent_bits_engine<WE<ET>, w, T> I; std::string W = H::cat("independent_bits<", w, ", ", nm<T>(), "> over ", en, " [", zs(a), ",", zs(b), "]"); H::Rng g = H::rng(H::hash(W));
  if constexpr (!std::is_integral<T>::value || sizeof(T) <= 8) CHECK(toZ(T((I::min)())) == 0 && toZ(T((I::max)())) == pw(w) - 1, "ibits-bounds", W, ": max ", zs(toZ(T((I::max)())))); Z all = 0, none = pw(w) - 1; const IModel M(R, w);
  auto scs = std::vector<std::vector<Z>>{ {}, { R - 1, R - 1, 0, R - 1 }, std::vector<Z>(4, Z(0)), std::vector<Z>(M.n < 40 ? 40 : 4, Z(pw(mp::msb(R)) - 1)), {}, {} };
  for (std::size_t k = 0; k < scs.size(); ++k) { H::Rng g1 = H::rng(g.next()), g2 = g1; int mode = k & 1 ? 2 : 1; const int n = w > 2000 ? 2 : 8; I eng(static_cast<const WE<ET>&>(e)); s.script = scs[k]; s.pos = 0; s.drawn = 0; s.rng = &g1; s.mode = mode; s.limit = 1000000; s.used.clear();
    std::vector<Z> got; std::vector<u64> dr; std::string what; try { for (int i = 0; i < n; ++i) { got.push_back(toZ(T(eng()))); dr.push_back(s.drawn); } } catch (WSrc::Over&) { what = "no result"; } catch (std::exception& x) { what = x.what(); }
    CHECK(what.empty(), "ibits-throws", W, ": ", what, " with engine values ", sm(s.used)); if (!what.empty()) continue;
    WSrc r; r.script = scs[k]; r.rng = &g2; r.mode = mode;
    for (int i = 0; i < n; ++i) { Z want = imodel(M, [&] { return r.next(R); }); CHECK(got[i] == want && dr[i] == r.drawn, "ibits", W, ": value ", i, " is ", zs(got[i]), " after ", dr[i], " engine values, expected ", zs(want), " after ", r.drawn); all |= got[i]; if (mode == 1 && scs[k].empty()) none &= got[i]; }
    H::event("values of bit-width adaptors", n); }
  I f(static_cast<const WE<ET>&>(e)); H::Rng g3 = g; s.rng = &g3; s.script.clear(); s.mode = 1; s.drawn = 0; s.limit = ~0ull; for (int i = 0; i < 60; ++i) { Z v = toZ(T(f())); all |= v; none &= v; } s.used.clear();
  CHECK(all == pw(w) - 1 && none == 0, "ibits-stuck", W, ": bits never set ", zs(Z(pw(w) - 1 - all)), " never cleared ", zs(none)); H::seen(W);
}
template<class ET> void ibits_all(const char* en, const std::vector<std::pair<Z,Z>>& rs) {
  for (auto& p : rs) { const Z &a = p.first, &b = p.second;
#define I(w, T) if constexpr (mixable<ET, T>::value && std::is_convertible<typename br::traits::make_unsigned<ET>::type, T>::value) ibits<ET, w, T>(a, b, en);
#ifdef BOOST_HAS_INT128
    I(65, u128) I(100, u128) I(128, u128) I(3, u128) I(127, i128) I(70, i128)
#endif
    if constexpr (kind<ET>::value == 0) { I(1, u64) I(31, u64) I(33, u64) I(64, u64) }
    I(1, mp::uint128_t) I(31, mp::uint128_t) I(33, mp::uint128_t) I(64, mp::uint128_t) I(65, mp::uint128_t) I(100, mp::uint128_t) I(127, mp::uint128_t) I(128, mp::uint128_t) I(128, mp::checked_uint128_t) I(77, mp::checked_uint128_t) I(96, uint96_t) I(65, uint65_t) I(127, mp::int128_t) I(128, mp::int128_t)
    I(129, mp::uint1024_t) I(512, mp::uint1024_t) I(1000, mp::uint1024_t) I(1023, mp::uint1024_t) I(1024, mp::uint1024_t) I(1024, mp::checked_uint1024_t) I(1024, mp::int1024_t) I(1024, mp::checked_int1024_t) I(333, mp::cpp_int) I(3000, mp::cpp_int) I(64, mp::cpp_int) I(2048, mp::checked_cpp_int) I(600, big_et_off)
#undef I
  } H::sample(en);
}
NAME(mp::int128_t, "int128_t") NAME(mp::int1024_t, "int1024_t") NAME(mp::checked_int1024_t, "checked_int1024_t")
#define X(B) SCEN("bit-width adaptor over " #B) { H::Rng g = H::rng(1); typedef std::numeric_limits<B> L; const Z mn = toZ(B((L::min)())), mx = toZ(B((L::max)())); \
  std::vector<std::pair<Z,Z>> es = { { mn, mx }, { mn, mn + 1 }, { mx - 2, mx }, { mn, mn + 9 }, { mn, mx - 1 }, { mn + 1, mx } }; for (int i = 0; i < (int)H::n(4, 30); ++i) { Z a = mn + WSrc::below(g, mx - mn), b = mn + WSrc::below(g, mx - mn); if (a == b) continue; if (a > b) std::swap(a, b); es.push_back({ a, b }); Z c = WSrc::below(g, mx - mn) >> (unsigned)g.below(mp::msb(Z(mx - mn))); es.push_back({ mx - 1 - c, mx }); } ibits_all<B>(#B " engine", es); }
X(u8_) X(u32) X(std::int32_t) X(u64) X(i64) X(mp::uint128_t) X(mp::checked_uint128_t) X(uint65_t) X(mp::uint1024_t)
#undef X
// real engines of the library: the same adaptor in wide types, adaptors of adaptors, save and restore, discard, seeding
template<class B, std::size_t w, class T> void lib_one(const char* bn) {
  typedef br::independent_bits_engine<B, w, T> I; std::string W = H::cat("independent_bits<", bn, ",", w, ",", nm<T>(), ">"); H::Rng g = H::rng(H::hash(W));
  const Z R = toZ((B::max)()) - toZ((B::min)()) + 1; const Z mn = toZ((B::min)()); const IModel M(R, w);
  for (int t = 0; t < (int)H::n(3, 40); ++t) { typedef typename B::result_type BR; BR sd = (BR)(g.next() >> 34); I e(sd); B b(sd); if (t == 1) { e = I(); b = B(); } if (t == 2) { e.seed(sd); br::seed_seq q({ 1u, (unsigned)sd }), q2({ 1u, (unsigned)sd }); e.seed(q); b.seed(q2); }
    for (int i = 0; i < 12; ++i) { if (i == 5) { unsigned k = (unsigned)g.below(5); e.discard(k); for (unsigned j = 0; j < k; ++j) imodel(M, [&] { return Z(toZ(b()) - mn); }); }
      if (i == 8) { std::stringstream ss; ss << e; I f; f(); ss >> f; CHECK(!ss.fail() && f == e && !(f != e), "lib-save", W, ": restored engine differs"); I c(f); CHECK(toZ(T(c())) == toZ(T(I(f)())), "lib-copy", W, ": copies differ"); e = f; }
      Z v = toZ(T(e())), x = imodel(M, [&] { return Z(toZ(b()) - mn); }); CHECK(v == x, "lib-ibits", W, " seed ", zs(toZ(sd)), ": value ", i, " is ", zs(v), ", expected ", zs(x)); H::event("values of library adaptors"); }
    H::seen(H::cat(W, t)); }
}
template<class B> void lib(const char* bn) { lib_one<B, 64, u64>(bn); lib_one<B, 64, mp::uint128_t>(bn); lib_one<B, 128, mp::uint128_t>(bn); lib_one<B, 100, mp::checked_uint128_t>(bn); lib_one<B, 1024, mp::uint1024_t>(bn); lib_one<B, 700, mp::cpp_int>(bn); lib_one<B, 30000, mp::cpp_int>(bn); lib_one<B, 96, uint96_t>(bn);
#ifdef BOOST_HAS_INT128
#endif
}
SCEN("library engines widened: mt19937") { lib<br::mt19937>("mt19937"); } SCEN("library engines widened: mt19937_64") { lib<br::mt19937_64>("mt19937_64"); } SCEN("library engines widened: minstd_rand0") { lib<br::minstd_rand0>("minstd_rand0"); }
SCEN("library engines widened: ecuyer1988") { lib<br::ecuyer1988>("ecuyer1988"); } SCEN("library engines widened: ranlux24") { lib<br::ranlux24>("ranlux24"); } SCEN("library engines widened: rand48") { lib<br::rand48>("rand48"); }
// words for seeding: a wide engine of w bits delivers what the native engine of w bits delivers
template<std::size_t w, class T> void words() {
  br::independent_bits_engine<br::mt19937, w, u64> a; br::independent_bits_engine<br::mt19937, w, T> b; H::Rng g = H::rng(w);
  for (int t = 0; t < (int)H::n(12, 200); ++t) { std::size_t n = g.below(40); std::vector<unsigned> x(n + 2, 7), y(n + 2, 7); a.generate(x.begin() + 1, x.end() - 1); b.generate(y.begin() + 1, y.end() - 1); CHECK(x == y, "words-native", "generate of ", n, " words from a ", w, " bit engine of type ", nm<T>(), ": ", y, "; uint64 gives ", x); H::event("seeding words", n); H::seen(H::cat(w, nm<T>(), n)); }
}
// wider engines: the words are the bits of the values, lowest first
template<std::size_t w, class T> void wide_words() {
  br::independent_bits_engine<br::mt19937, w, T> a, b; H::Rng g = H::rng(w);
  for (int t = 0; t < (int)H::n(12, 200); ++t) { std::size_t n = 1 + g.below(90); std::vector<unsigned> x(n + 2, 7); a = b; a.generate(x.begin() + 1, x.end() - 1); std::vector<unsigned> y(n + 2, 7); Z acc = 0; unsigned have = 0; for (std::size_t i = 0; i < n; ++i) { while (have < 32) { acc += toZ(T(b())) << have; have += w; } y[i + 1] = (unsigned)(acc & 0xffffffffu); acc >>= 32; have -= 32; }
    CHECK(x == y, "words-wide", "generate of ", n, " words from a ", w, " bit engine of type ", nm<T>(), ": ", x, " but the bits of the values are ", y); CHECK(a == b, "words-consumed", "generate of ", n, " words from a ", w, " bit engine of type ", nm<T>(), " leaves the engine in another state"); H::event("seeding words", n); H::seen(H::cat(w, nm<T>(), n)); br::mt19937 m1, m2; m1.seed(a); m2.seed(b); CHECK(m1 == m2, "seeded", "an engine seeded from a wide engine"); }
}
SCEN("seeding words from wide engines") {
#define X(w) words<w, mp::uint128_t>(); words<w, mp::checked_uint128_t>(); words<w, mp::uint1024_t>(); words<w, uint65_t>();
  X(1) X(7) X(16) X(31) X(32) X(33) X(48) X(53) X(63) X(64)
#undef X
  wide_words<65, mp::uint128_t>(); wide_words<65, uint65_t>(); wide_words<96, uint96_t>(); wide_words<96, mp::uint128_t>(); wide_words<100, mp::uint128_t>(); wide_words<127, mp::uint128_t>(); wide_words<128, mp::uint128_t>(); wide_words<128, mp::checked_uint128_t>(); wide_words<333, mp::uint1024_t>(); wide_words<1000, mp::uint1024_t>(); wide_words<1024, mp::uint1024_t>(); wide_words<1024, mp::checked_uint1024_t>(); H::sample("generate() of wide bit-width adaptors");
}
SCEN("adaptors of wide engines") {
  typedef br::independent_bits_engine<br::mt19937, 512, mp::uint1024_t> I; typedef br::xor_combine_engine<I, 512, I, 10> XC; typedef br::discard_block_engine<I, 7, 3> DB; H::Rng g = H::rng(2);
  XC x; I a, b; Z top = toZ(mp::uint1024_t((XC::max)())); CHECK(toZ(mp::uint1024_t((XC::min)())) == 0, "xor-min", "xor_combine of wide engines: min");
  DB d; I c; for (int i = 0; i < (int)H::n(200, 5000); ++i) { Z v = toZ(mp::uint1024_t(x())), w = (toZ(mp::uint1024_t(a())) << 512) ^ (toZ(mp::uint1024_t(b())) << 10); CHECK(v == w && v <= top, "xor-wide", "xor_combine of 512 bit engines: value ", i, " is ", zs(v), ", expected ", zs(w), " max ", zs(top));
    Z y = toZ(mp::uint1024_t(d())), z = toZ(mp::uint1024_t(c())); if (i % 3 == 2) c.discard(4); CHECK(y == z, "discard-wide", "discard_block of a 512 bit engine: value ", i, " is ", zs(y), ", expected ", zs(z));
    if (i % 50 == 49) { std::stringstream s; s << x << ' ' << d; XC x2; DB d2; s >> x2 >> d2; CHECK(x2 == x && d2 == d, "adaptor-save", "restored adaptors of wide engines differ"); x = x2; d = d2; } H::event("values of adaptors", 2); H::seen((u64)i); }
  typedef br::independent_bits_engine<br::independent_bits_engine<br::mt19937, 100, mp::uint128_t>, 300, mp::uint1024_t> II; II e; br::independent_bits_engine<br::mt19937, 100, mp::uint128_t> f; IModel M(pw(100), 300); for (int i = 0; i < 100; ++i) { Z v = toZ(mp::uint1024_t(e())), w = imodel(M, [&] { return toZ(mp::uint128_t(f())); }); CHECK(v == w, "nested", "nested bit-width adaptors: ", zs(v), ", expected ", zs(w)); }
#ifdef BOOST_HAS_INT128
  typedef br::independent_bits_engine<br::mt19937, 100, u128> IU; typedef br::xor_combine_engine<IU, 20, IU, 3> XU; XU xu; IU p, q; for (int i = 0; i < 100; ++i) { Z v = toZ(xu()), w = ((toZ(p()) << 20) & (pw(128) - 1)) ^ (toZ(q()) << 3); CHECK(v == w, "xor-int128", "xor_combine of unsigned __int128: ", zs(v), ", expected ", zs(w)); }
#endif
  H::sample("xor_combine, discard_block and independent_bits over 512 and 100 bit engines");
}
#endif
#if VERIF_PART == 5 || VERIF_PART == 6 || VERIF_PART == 7
// ---- real types
typedef mp::number<mp::cpp_bin_float<53, mp::digit_base_2, void, std::int16_t, -1022, 1023>, mp::et_off> bin53;
typedef mp::number<mp::cpp_bin_float<24, mp::digit_base_2, void, std::int16_t, -126, 127> > bin24;
typedef mp::number<mp::cpp_bin_float<168, mp::digit_base_2>, mp::et_off> bin168_off;
typedef mp::number<mp::cpp_bin_float<1000, mp::digit_base_2> > bin1000;
NAME(float, "float") NAME(double, "double") NAME(bin53, "53 bit cpp_bin_float") NAME(bin24, "24 bit cpp_bin_float") NAME(bin168_off, "cpp_bin_float of 168 bits without expression templates") NAME(bin1000, "cpp_bin_float of 1000 bits") NAME(mp::cpp_bin_float_50, "cpp_bin_float_50") NAME(mp::cpp_bin_float_100, "cpp_bin_float_100") NAME(mp::cpp_bin_float_quad, "cpp_bin_float_quad") NAME(mp::cpp_bin_float_double_extended, "cpp_bin_float_double_extended") NAME(mp::cpp_dec_float_50, "cpp_dec_float_50") NAME(mp::cpp_dec_float_100, "cpp_dec_float_100")
template<class F> HF hf(const F& v) { if constexpr (std::numeric_limits<F>::radix == 10) return HF(v.str(0, std::ios_base::scientific)); else return HF(v); }
#ifdef VERIF_F128
NAME(__float128, "__float128")
template<> HF hf<__float128>(const __float128& v) { if (v == 0) return 0; int e; __float128 m = v; bool neg = m < 0; if (neg) m = -m; e = 0; while (m >= 1) { m /= 2; ++e; } while (m < 0.5Q) { m *= 2; --e; } HF r = 0; for (int i = 0; i < 8; ++i) { m *= 65536; unsigned d = (unsigned)m; m -= d; r = r * 65536 + d; } r = ldexp(r, e - 128); return neg ? HF(-r) : r; }
#endif
template<class F> std::string fs(const F& v) { return hf(v).str(40); }
template<class F> HF eps() { return hf(F(std::numeric_limits<F>::epsilon())); }
template<class F> std::size_t fbits() { typedef std::numeric_limits<F> L; return L::radix == 2 ? L::digits : (std::size_t)std::floor(L::digits * 3.3219280948873623); }
inline HF zf(const Z& z) { return HF(z); }
#endif
#if VERIF_PART == 5

template<class F, std::size_t bits, class E> void canon(E e, WSrc& s, H::Rng g, const std::vector<std::vector<Z>>& scs, const std::string& en) {
  const Z R = e.R; const std::size_t b = std::min(bits, fbits<F>()); std::size_t k = 1; Z m = R; while (m < pw(b)) { m *= R; ++k; } const bool edge = k > 1 && abs(zf(m) / zf(pw(b)) - 1) < 1e-6 && m != pw(b); bool edge2 = k > 1 && [&] { Z q = m / R; return q > pw(b) - (pw(b) >> 20); }();
  std::string W = H::cat("generate_canonical<", nm<F>(), ",", bits, "> from ", en); HF ep = eps<F>();
  for (auto& sc : scs) { s.script = sc; s.pos = 0; s.drawn = 0; H::Rng g1 = H::rng(g.next()); s.rng = &g1; s.mode = 2; s.limit = 5000; s.used.clear(); HF v; F raw; try { raw = br::generate_canonical<F, bits>(e); v = hf(raw); } catch (WSrc::Over&) { H::viol("canonical-endless", H::cat(W, ": no result after 5000 engine values")); return; }
    HF S = 0; Z D = 0, M = 1; for (auto& d : s.used) { D += d * M; M *= R; } HF want = zf(D) / zf(M);
    CHECK(raw >= 0 && raw < 1, "canonical-range", W, " gave ", v.str(30), " from ", sm(s.used));
    CHECK(abs(v - want) <= 4 * ep * (HF)(s.used.size()) * want, "canonical-value", W, " gave ", v.str(50), ", expected ", want.str(50), " from ", s.used.size(), " engine values ", sm(s.used));
    std::size_t k2 = k; if (std::numeric_limits<F>::radix != 2 && b < bits) for (Z m2 = m; m2 < pw(b + 2); m2 *= R) ++k2;   // the significand of a decimal type is no whole number of bits
    if (!edge && !edge2) CHECK(s.used.size() >= k && s.used.size() <= k2, "canonical-bits", W, " takes ", s.used.size(), " engine values, ", b, " bits need ", k);
    H::event("canonical values"); H::seen(H::cat(W, sm(s.used))); }
}
template<class F, class E> void real_from(E e, WSrc& s, const std::string& en, bool integral) {
  H::Rng g = H::rng(H::hash(en) ^ H::hash(nm<F>())); const Z R = e.R, t = R - 1; const HF ep = eps<F>(); typedef std::numeric_limits<F> L;
  std::vector<std::vector<Z>> scs = { {}, {}, {}, std::vector<Z>(60, Z(0)), std::vector<Z>(60, t), { t, 0, t, 0, t }, { 0, t, 0, t, 0 }, { t - (t > 0), t, t / 2, t / 2 + 1 }, { t / 2 + 1, 0, t } }; for (int i = 0; i < (int)H::n(2, 40); ++i) scs.push_back({});
  canon<F, 1>(e, s, g, scs, en); canon<F, 24>(e, s, g, scs, en); canon<F, 53>(e, s, g, scs, en); canon<F, 64>(e, s, g, scs, en); canon<F, 65>(e, s, g, scs, en); canon<F, 113>(e, s, g, scs, en); canon<F, 160>(e, s, g, scs, en); canon<F, 100000>(e, s, g, scs, en);
  // u01: d / R; a value that rounds to 1 is drawn again
  for (auto sc : scs) { sc.resize(sc.empty() ? 0 : 3); if (!sc.empty()) sc.push_back(0); s.script = sc; s.pos = 0; s.drawn = 0; H::Rng g1 = H::rng(g.next()); s.rng = &g1; s.mode = 1; s.limit = 5000; s.used.clear(); std::string W = H::cat("uniform_01<", nm<F>(), "> from ", en);
    F raw; try { raw = br::uniform_01<F>()(e); } catch (WSrc::Over&) { H::viol("u01-endless", H::cat(W, ": no result after 5000 engine values")); return; }
    CHECK(raw >= 0 && raw < 1, "u01-range", W, " gave ", fs(raw)); HF want = zf(s.used.back()) / zf(R); CHECK(abs(hf(raw) - want) <= 3 * ep * want, "u01-value", W, " gave ", fs(raw), ", expected ", want.str(50)); for (std::size_t i = 0; i + 1 < s.used.size(); ++i) CHECK(zf(s.used[i]) / zf(R) >= 1 - 3 * ep, "u01-draws", W, ": engine value ", zs(s.used[i]), " was thrown away"); H::event("uniform_01 values"); H::seen(H::cat(W, sm(s.used))); }
  std::vector<std::pair<F,F>> iv = { { F(0), F(1) }, { F(-1), F(1) }, { F(1), F(1) + F(L::epsilon()) }, { F(-3.5), F(2.25) }, { F(1e6), F(1e6) + 1 }, { F(0), F(10) }, { F(1) / 3, F(2) / 3 }, { -F((L::max)()), F((L::max)()) }, { F(0), F((L::max)()) }, { -F((L::max)()) / 2, F((L::max)()) }, { F(-1e-30), F(1e-30) }, { F(0), F((L::min)()) * 1024 } };
  for (auto& r : iv) { const HF lo = hf(r.first), hi = hf(r.second), mag = abs(lo) > abs(hi) ? HF(abs(lo)) : HF(abs(hi)), tol = 8 * ep * mag + 2 * hf(F((L::min)())); br::uniform_real_distribution<F> d(r.first, r.second), o; boost::uniform_real<F> old(r.first, r.second); int c = 0; std::string W = H::cat("uniform_real<", nm<F>(), ">[", lo.str(20), ",", hi.str(20), ") from ", en);
    CHECK(d.a() == r.first && d.b() == r.second && d.min() == r.first && d.max() == r.second, "ureal-bounds", W, " reports other bounds");
    for (auto sc : scs) { if (!sc.empty()) { sc.resize(3); sc.push_back(0); sc.push_back(t / 2); } s.script = sc; s.pos = 0; s.drawn = 0; H::Rng g1 = H::rng(g.next()); s.rng = &g1; s.mode = 1; s.limit = 5000; s.used.clear(); F raw; try { raw = c % 3 == 0 ? d(e) : c % 3 == 1 ? o(e, typename br::uniform_real_distribution<F>::param_type(r.first, r.second)) : old(e); ++c; } catch (WSrc::Over&) { H::viol("ureal-endless", H::cat(W, ": no result after 5000 engine values")); return; }
      CHECK(raw >= r.first && raw < r.second, "ureal-range", W, " gave ", fs(raw)); auto val = [&](const Z& z) { return HF(lo + (hi - lo) * (zf(z) / zf(integral ? R : R))); }; CHECK(abs(hf(raw) - val(s.used.back())) <= tol, "ureal-value", W, " gave ", fs(raw), ", expected ", val(s.used.back()).str(40), " engine value ", zs(s.used.back()), " of ", zs(R));
      for (std::size_t i = 0; i + 1 < s.used.size(); ++i) CHECK(val(s.used[i]) >= hi - tol, "ureal-draws", W, ": engine value ", zs(s.used[i]), " was thrown away"); H::event("uniform_real values"); H::seen(H::cat(W, sm(s.used))); } }
  // a Bernoulli trial with a real probability: the fraction of the engine's range
  for (double pd : { 0.0, 0.25, 0.5, 0.7, 1.0 }) { F p(pd); br::bernoulli_distribution<F> d(p); HF cut = hf(p) * zf(t); for (Z z : { Z(0), t, Z(cut), Z(Z(cut) + 1), Z(t / 2), WSrc::below(g, R) }) { if (z > t || z < 0) continue; if (abs(zf(z) - cut) <= 4 * ep * cut + 1) { s.script = {}; continue; } s.script = { z }; s.pos = 0; s.drawn = 0; s.limit = 1; bool v = d(e); CHECK(v == (pd == 0 ? false : zf(z) < cut), "bernoulli", "bernoulli<", nm<F>(), ">(", pd, ") from ", en, ": engine value ", zs(z), " of ", zs(R), " gave ", v); H::event("Bernoulli trials"); } }
  s.limit = ~0ull;
}
// the same stream answered with double and with a 53 bit multiprecision type, bit by bit
template<class N, class F, class E> void real_native(E e, WSrc& s, const std::string& en, int ulps = 0) {   // ulps: multiprecision converts wide integers with another rounding
  H::Rng g = H::rng(H::hash(en) ^ 17); for (int t = 0; t < (int)H::n(60, 1000); ++t) { H::Rng g1 = H::rng(g.next()), g2 = g1, g3 = g1, g4 = g1, g5 = g1, g6 = g1; s.script.clear(); s.mode = 2; s.limit = ~0ull; s.used.clear(); auto chk = [&](N a, const F& b, const char* w) { CHECK(abs(hf(a) - hf(b)) <= ulps * eps<F>() * abs(hf(a)), "real-native", w, "<", nm<F>(), "> from ", en, ": ", fs(b), " but the native type gives ", fs(a), " from ", sm(s.used)); };
    s.rng = &g1; N a = br::generate_canonical<N, 53>(e); s.rng = &g2; F b = br::generate_canonical<F, 53>(e); chk(a, b, "generate_canonical"); s.rng = &g3; a = br::uniform_01<N>()(e); s.rng = &g4; b = br::uniform_01<F>()(e); chk(a, b, "uniform_01");
    N l = (N)(g.unit() * 100 - 50), h = l + (N)g.unit() + (N)0.01; s.rng = &g5; a = br::uniform_real_distribution<N>(l, h)(e); s.rng = &g6; b = br::uniform_real_distribution<F>(F(l), F(h))(e); chk(a, b, "uniform_real"); H::event("real results compared with the native type", 3); H::seen(H::cat(en, nm<F>(), t)); }
}
#ifdef VERIF_F128
#define REALS(X) X(__float128)
#else
#if VERIF_R == 1
#define REALS(X) X(double) X(bin24)
#elif VERIF_R == 2
#define REALS(X) X(bin53) X(bin168_off)
#elif VERIF_R == 3
#define REALS(X) X(bin1000) X(mp::cpp_bin_float_50)
#elif VERIF_R == 4
#define REALS(X) X(mp::cpp_bin_float_100) X(mp::cpp_bin_float_quad)
#else
#define REALS(X) X(mp::cpp_bin_float_double_extended) X(mp::cpp_dec_float_50) X(mp::cpp_dec_float_100)
#endif
#endif
template<class F> bool range_ok(const Z& R) { return hf(F((std::numeric_limits<F>::max)())) > zf(R) * zf(R); }
template<class F> void reals() {
  { WSrc s; for (auto& p : std::vector<std::pair<Z,Z>>{ { 0, 255 }, { 0, 1 }, { 3, 5 }, { 7, 16 }, { 254, 255 } }) real_from<F>(WE<u8_>(s, p.first, p.second), s, H::cat("uint8 engine [", zs(p.first), ",", zs(p.second), "]"), true); }
  { WSrc s; for (auto& p : std::vector<std::pair<Z,Z>>{ { 0, pw(32) - 1 }, { 1, 2147483646 }, { 0, 99 } }) real_from<F>(WE<u32>(s, p.first, p.second), s, H::cat("uint32 engine [", zs(p.first), ",", zs(p.second), "]"), true); }
  { WSrc s; for (auto& p : std::vector<std::pair<Z,Z>>{ { -pw(63), pw(63) - 1 }, { -5, 5 }, { -pw(62), pw(63) - 2 } }) { real_from<F>(WE<i64>(s, p.first, p.second), s, H::cat("int64 engine [", zs(p.first), ",", zs(p.second), "]"), true); } }
  { WSrc s; real_from<F>(WE<u64>(s, 0, pw(64) - 1), s, "uint64 engine", true); }
  if constexpr (std::is_constructible<F, mp::uint128_t>::value) { WSrc s; for (auto& p : std::vector<std::pair<Z,Z>>{ { 0, 255 }, { 0, 1 }, { pw(100), pw(100) + 9 }, { 0, pw(128) - 1 }, { 5, pw(90) } }) if (range_ok<F>(p.second)) real_from<F>(WE<mp::uint128_t>(s, p.first, p.second), s, H::cat("uint128_t engine [", zs(p.first), ",", zs(p.second), "]"), true); }
  if constexpr (std::is_constructible<F, mp::uint1024_t>::value) { WSrc s; for (auto& p : std::vector<std::pair<Z,Z>>{ { 0, 255 }, { 0, pw(400) }, { 0, pw(1024) - 1 } }) if (range_ok<F>(p.second)) real_from<F>(WE<mp::uint1024_t>(s, p.first, p.second), s, H::cat("uint1024_t engine [", zs(p.first), ",", zs(p.second), "]"), true); }
  if constexpr (std::is_constructible<F, mp::cpp_int>::value) { WSrc s; for (auto& p : std::vector<std::pair<Z,Z>>{ { -3, 255 }, { -pw(100), pw(100) }, { 0, 1 } }) if (range_ok<F>(p.second)) real_from<F>(WE<mp::cpp_int>(s, p.first, p.second), s, H::cat("cpp_int engine [", zs(p.first), ",", zs(p.second), "]"), true); }
  { WSrc s; real_from<F>(WR<double>(s), s, "double engine", false); real_from<F>(WR<float>(s), s, "float engine", false); }
  if constexpr (std::is_constructible<F, mp::cpp_bin_float_50>::value && std::numeric_limits<F>::digits >= 168) { WSrc s; real_from<F>(WR<mp::cpp_bin_float_50>(s), s, "cpp_bin_float_50 engine", false); }
  H::sample(nm<F>());
}
#define X(F) SCEN("real results of type " #F) { reals<F>(); }
REALS(X)
#undef X
#if !defined(VERIF_F128) && VERIF_R == 1
SCEN("double and its multiprecision twin") { WSrc s; real_native<double, bin53>(WE<u8_>(s, 0, 255), s, "uint8 engine"); real_native<double, bin53>(WE<u8_>(s, 0, 9), s, "uint8 engine [0,9]"); real_native<double, bin53>(WE<u32>(s, 0, pw(32) - 1), s, "uint32 engine"); real_native<double, bin53>(WE<std::int32_t>(s, -pw(31), pw(31) - 1), s, "int32 engine"); real_native<double, bin53>(WE<std::int32_t>(s, 1, 2147483646), s, "minstd range"); real_native<double, bin53>(WE<u64>(s, 0, pw(64) - 1), s, "uint64 engine", 4); real_native<double, bin53>(WR<double>(s), s, "double engine"); real_native<float, bin24>(WE<u32>(s, 0, pw(32) - 1), s, "uint32 engine", 4); real_native<float, bin24>(WE<unsigned short>(s, 0, 65535), s, "uint16 engine"); real_native<float, bin24>(WE<u8_>(s, 0, 255), s, "uint8 engine"); real_native<float, bin24>(WR<float>(s), s, "float engine"); }
#endif
#endif

#if VERIF_PART == 6
// ---- real-valued engines in wide types, against integer recurrences
struct LF { unsigned w; std::size_t p, q, i = 0; std::vector<Z> x; Z next() { Z v = (x[i] + x[(i + p - q) % p]) & (pw(w) - 1); x[i] = v; i = (i + 1) % p; return v; } };
struct SWC { unsigned w; std::size_t r, s, i = 0; int c = 0; std::vector<Z> x; void init() { i = 0; c = x[r - 1] == 0; } Z next() { Z d = x[(i + r - s) % r] - x[i] - c; if (d < 0) { d += pw(w); c = 1; } else c = 0; x[i] = d; i = (i + 1) % r; return d; } };
inline std::vector<Z> from_words(const std::vector<unsigned>& v, unsigned w, std::size_t n) { std::vector<Z> x; std::size_t k = 0; for (std::size_t j = 0; j < n; ++j) { Z z = 0; for (unsigned b = 0; b < (w + 31) / 32; ++b) z += Z(v[k++]) << (32 * b); x.push_back(z & (pw(w) - 1)); } return x; }
template<class F> Z scaled(const F& v, unsigned w) { HF h = ldexp(hf(v), (int)w); Z z = static_cast<Z>(floor(h)); if (HF(z) != h) return -1; return z; }
template<class Eng, class Mod, class F> void real_engine(unsigned w, std::size_t n, Mod m0, const std::string& W) {
  H::Rng g = H::rng(H::hash(W)); const std::size_t words = (w + 31) / 32 * n; typedef std::numeric_limits<F> L;
  for (int t = 0; t < (int)H::n(3, 25); ++t) {
    std::vector<unsigned> sd(words); for (auto& u : sd) u = t == 1 ? (g.below(3) ? 0 : ~0u) : (unsigned)g.next(); if (t == 2) { for (std::size_t i = words - (w + 31) / 32; i < words; ++i) sd[i] = 0; }
    auto it = sd.begin(); auto e = std::make_unique<Eng>(it, sd.end()); CHECK(it == sd.end(), "seed-consumes", W, ": seeding from a range leaves ", sd.end() - it, " of ", words, " words"); Mod m = m0; m.x = from_words(sd, w, n); if constexpr (std::is_same<Mod, SWC>::value) m.init();
    auto f = std::make_unique<Eng>(); const int N = (int)(n * 2 + 40);
    for (int i = 0; i < N; ++i) { F v = (*e)(); Z z = m.next(); CHECK(v >= 0 && v < 1, "engine-range", W, ": value ", fs(v)); CHECK(scaled(v, w) == z, "engine-value", W, ": value ", i, " is ", fs(v), ", expected ", zs(z), " / 2^", w); H::event("real engine values"); if (H::st().viols > 20) return;
      if (i % 37 == 5) { std::stringstream s; s.precision(L::max_digits10 + 2); s << *e; s >> *f; CHECK(!s.fail() && *f == *e, "engine-save", W, ": restored engine differs"); std::swap(e, f); }
      if (i % 41 == 7) { unsigned k = (unsigned)g.below(2 * n); e->discard(k); for (unsigned j = 0; j < k; ++j) m.next(); } }
    it = sd.begin(); auto last = sd.begin() + (words - 1); bool threw = false; try { f->seed(it, last); } catch (std::invalid_argument&) { threw = true; } CHECK(threw, "seed-short", W, ": seeding from ", words - 1, " words does not throw"); H::seen(H::cat(W, t)); }
  H::sample(W);
}
// integer and default seeding give what the double engine gives (48 bits fit both)
template<class A, class B> void same_as_double(const std::string& W) {
  H::Rng g = H::rng(H::hash(W)); for (int t = 0; t < 6; ++t) { auto a = std::make_unique<A>(); auto b = std::make_unique<B>(); if (t) { unsigned s = (unsigned)g.next(); if (t & 1) { a->seed(s); b->seed(s); } else { br::seed_seq q({ 1u, s }), r({ 1u, s }); a->seed(q); b->seed(r); } } for (int i = 0; i < 300; ++i) { auto x = (*a)(); auto y = (*b)(); CHECK(hf(x) == hf(y), "engine-native", W, ": value ", i, " is ", fs(y), ", the native engine gives ", fs(x)); H::event("real engine values compared with the native engine"); } H::seen(H::cat(W, t)); }
}
// words for seeding: all bits of the values, lowest first
template<class Eng> void real_words(unsigned w, const std::string& W) {
  auto a = std::make_unique<Eng>(), b = std::make_unique<Eng>(); H::Rng g = H::rng(H::hash(W)); for (int t = 0; t < (int)H::n(20, 200); ++t) { std::size_t n = 1 + g.below(60); std::vector<unsigned> x(n + 2, 7), y(n + 2, 7); *a = *b; a->generate(x.begin() + 1, x.end() - 1); Z acc = 0; unsigned have = 0; for (std::size_t i = 0; i < n; ++i) { while (have < 32) { acc += scaled((*b)(), w) << have; have += w; } y[i + 1] = (unsigned)(acc & 0xffffffffu); acc >>= 32; have -= 32; } CHECK(x == y, "real-words", "generate of ", n, " words from ", W, ": ", x, " but the bits of the values are ", y); CHECK(*a == *b, "real-words-consumed", "generate of ", n, " words from ", W, " leaves the engine in another state"); H::event("seeding words", n); H::seen(H::cat(W, n)); }
}
#define LFS(F, w, p, q) real_engine<br::lagged_fibonacci_01_engine<F, w, p, q>, LF, F>(w, p, LF{ w, p, q }, H::cat("lagged_fibonacci_01<", nm<F>(), "," #w "," #p "," #q ">"));
#define SWCS(F, w, s, r) real_engine<br::subtract_with_carry_01_engine<F, w, s, r>, SWC, F>(w, r, SWC{ w, r, s }, H::cat("subtract_with_carry_01<", nm<F>(), "," #w "," #s "," #r ">"));
#define ALL(F) SCEN("real engines of type " #F) { LFS(F, 24, 55, 24) LFS(F, 32, 17, 5) LFS(F, 31, 55, 24) LFS(F, 48, 55, 24) SWCS(F, 24, 10, 24) SWCS(F, 48, 10, 24) SWCS(F, 32, 5, 12) if constexpr (std::numeric_limits<F>::digits >= 64 && std::numeric_limits<F>::radix == 2) { LFS(F, 63, 55, 24) SWCS(F, 63, 10, 24) SWCS(F, 64, 10, 24) } if constexpr (std::numeric_limits<F>::digits >= 113) { LFS(F, 100, 55, 24) SWCS(F, 100, 10, 24) SWCS(F, 113, 10, 24) LFS(F, 96, 17, 5) LFS(F, 112, 17, 5) } if constexpr (std::numeric_limits<F>::digits >= 168 && std::numeric_limits<F>::radix == 2) { LFS(F, 160, 55, 24) SWCS(F, 128, 10, 24) SWCS(F, 168, 10, 24) LFS(F, 167, 17, 5) } }
#ifdef VERIF_F128
#else
ALL(double) ALL(bin53) ALL(mp::cpp_bin_float_quad) ALL(mp::cpp_bin_float_50) ALL(bin168_off) ALL(mp::cpp_bin_float_double_extended) ALL(mp::cpp_dec_float_50)
SCEN("real engines of 1000 bits") { LFS(bin1000, 999, 17, 5) SWCS(bin1000, 999, 5, 12) LFS(bin1000, 700, 17, 5) SWCS(bin1000, 1000, 10, 24) }
SCEN("real engines seeded as the native ones") {
#define X(F) same_as_double<br::lagged_fibonacci607, br::lagged_fibonacci_01_engine<F, 48, 607, 273> >(H::cat("lagged_fibonacci607 of ", nm<F>())); same_as_double<br::ranlux64_base_01, br::subtract_with_carry_01_engine<F, 48, 10, 24> >(H::cat("ranlux64_base_01 of ", nm<F>())); same_as_double<br::ranlux64_3_01, br::discard_block_engine<br::subtract_with_carry_01_engine<F, 48, 10, 24>, 223, 24> >(H::cat("ranlux64_3_01 of ", nm<F>()));
  X(bin53) X(mp::cpp_bin_float_50) X(mp::cpp_bin_float_quad) X(bin168_off) X(bin1000) X(mp::cpp_dec_float_50)
#undef X
  H::sample("engines of 48 bits in six wide real types"); }
SCEN("seeding words from wide real engines") { real_words<br::lagged_fibonacci_01_engine<double, 53, 55, 24> >(53, "53 bit double"); real_words<br::lagged_fibonacci_01_engine<bin53, 53, 55, 24> >(53, "53 bit cpp_bin_float"); real_words<br::lagged_fibonacci_01_engine<mp::cpp_bin_float_quad, 113, 55, 24> >(113, "113 bit cpp_bin_float"); real_words<br::lagged_fibonacci_01_engine<mp::cpp_bin_float_50, 168, 55, 24> >(168, "168 bit cpp_bin_float"); real_words<br::lagged_fibonacci_01_engine<bin1000, 1000, 55, 24> >(1000, "1000 bit cpp_bin_float"); real_words<br::subtract_with_carry_01_engine<mp::cpp_bin_float_double_extended, 64, 10, 24> >(64, "64 bit cpp_bin_float"); H::sample("generate() of full-precision wide real engines"); }
#endif
#endif

#if VERIF_PART == 7
// ---- distributions with multiprecision parameters and results
typedef double (*Cdf)(const std::vector<double>&, double);
inline double ks_z(std::vector<double> u) { std::sort(u.begin(), u.end()); double d = 0, n = (double)u.size(); for (std::size_t i = 0; i < u.size(); ++i) d = std::max(d, std::max((i + 1) / n - u[i], u[i] - i / n)); return d * std::sqrt(n); }
template<class T> double dbl(const T& v) { return static_cast<double>(v); }
template<class F, class D, class E> void law(const char* dn, const D& d0, E eng, std::function<double(double)> cdf, double lo, double hi, const char* en) {
  D d(d0); int n = (int)H::n(3000, 20000); std::vector<double> u; std::string W = H::cat(dn, " of ", nm<F>(), " from ", en); std::vector<double> pair(16); int pb = -1;
  for (int i = 0; i < n; ++i) { F v = d(eng); double x = dbl(v); if (!(x >= lo && x <= hi)) { H::viol("outside", H::cat(W, " gave ", x, " (value ", i, ")")); return; } double c = cdf(x); u.push_back(c); int b = std::min(3, (int)(c * 4)); if (pb >= 0) pair[pb * 4 + b]++; pb = b; }
  H::eval(n); H::event("values compared with the law", n); H::seen(W); double z = ks_z(u); CHECK(z < 3.6, "law", W, ": Kolmogorov-Smirnov statistic ", z, " over ", n, " values");
  double x = 0, ex = (n - 1) / 16.0; for (double v : pair) x += (v - ex) * (v - ex) / ex; double zc = zchi(x, 15); CHECK(zc < 7.5, "dependent", W, ": chi-square of successive pairs z ", zc);
}
// the same stream gives the same values whether the object was built, copied, assigned, read back or reset
template<class F, class D, class E> void object(const char* dn, const D& d0, const D& other, E eng) {
  std::string W = H::cat(dn, " of ", nm<F>()); D a(d0), b(d0.param()), c(other); c.param(d0.param()); D e2(other); { E t(eng); e2(t); } e2 = d0; D f(other); std::stringstream ss; ss << std::setprecision(std::numeric_limits<F>::max_digits10) << d0; ss >> f; CHECK(!ss.fail() && f == d0 && !(f != d0), "save", W, ": reading back ", ss.str(), " gives another object");
  typename D::param_type p(other.param()); std::stringstream ps; ps << std::setprecision(std::numeric_limits<F>::max_digits10) << d0.param(); ps >> p; CHECK(!ps.fail() && p == d0.param(), "save-param", W, ": reading back the parameters ", ps.str(), " gives others");
  CHECK(!(d0 == other), "equal", W, ": objects with different parameters are equal"); D g(other); D h(d0); { E t(eng); h(t); } h.reset();
  E e[8] = { eng, eng, eng, eng, eng, eng, eng, eng };
  for (int i = 0; i < 30; ++i) { auto v = a(e[0]); auto chk = [&](const auto& w, const char* how) { CHECK(v == w, "object-differs", W, ": value ", i, " of an object ", how, " differs: ", v, " and ", w); }; chk(b(e[1]), "made from parameters"); chk(c(e[2]), "given parameters"); chk(e2(e[3]), "assigned"); chk(f(e[4]), "read back"); chk(h(e[6]), "used and reset"); H::event("values of equal objects", 5); }
  for (int i = 0; i < 3; ++i) { D q(other); E t(eng), u(eng); D r(d0); CHECK(q(t, d0.param()) == r(u), "per-call", W, ": a draw with parameters differs from the object's own"); H::event("values of equal objects"); } H::seen(W);
}
typedef VERIF_F F;
namespace bm = boost::math;
template<class E> struct rt_of { typedef typename E::result_type type; };
typedef br::lagged_fibonacci_01_engine<mp::cpp_bin_float_50, 160, 607, 273> LFB; typedef br::independent_bits_engine<br::mt19937, 200, mp::cpp_int> IBW;
template<class Go> void engines(Go go) { H::Rng g = H::rng(3); go(br::mt19937((unsigned)g.next()), "mt19937"); go(br::minstd_rand((int)(1 + g.below(1000000))), "minstd_rand"); go(br::mt19937_64(g.next()), "mt19937_64"); go(br::lagged_fibonacci607((unsigned)g.next()), "lagged_fibonacci607"); go(br::ranlux3((unsigned)g.next()), "ranlux3");
  IBW w; w.seed((unsigned)g.next()); go(w, "200 bit engine"); }
template<class D> void cont(const char* dn, const std::vector<D>& ds, std::function<double(const D&, double)> cdf, double lo, double hi) {
  for (std::size_t i = 0; i < ds.size(); ++i) engines([&](auto e, const char* en) { const D& d = ds[i]; std::string n = H::cat(dn, " #", i); law<F>(n.c_str(), d, e, [&](double x) { return cdf(d, x); }, lo, hi, en); if (i + 1 < ds.size()) object<F>(n.c_str(), d, ds[i + 1], e); else object<F>(n.c_str(), d, ds[0], e); });
  H::sample(dn);
}
#define CONT(fam, name, objs, law_, lo, hi) SCEN(name) { typedef br::fam##_distribution<F> D; cont<D>(name, std::vector<D> objs, [](const D& d, double x) -> double { return law_; }, lo, hi); }
const double INF = std::numeric_limits<double>::infinity();
#if VERIF_S == 1
CONT(normal, "normal", ({ D(), D(F(5), F(1) / 3) }), bm::cdf(bm::normal(dbl(d.mean()), dbl(d.sigma())), x), -INF, INF)
CONT(exponential, "exponential", ({ D(), D(F(7) / 3) }), -std::expm1(-dbl(d.lambda()) * x), 0, INF)
CONT(laplace, "laplace", ({ D(), D(F(-3), F(2) / 7) }), bm::cdf(bm::laplace(dbl(d.mean()), dbl(d.beta())), x), -INF, INF)
CONT(extreme_value, "extreme_value", ({ D(), D(F(3), F(2) / 7) }), bm::cdf(bm::extreme_value(dbl(d.a()), dbl(d.b())), x), -INF, INF)
CONT(weibull, "weibull", ({ D(), D(F(3) / 2, F(2) / 7) }), bm::cdf(bm::weibull(dbl(d.a()), dbl(d.b())), x), 0, INF)
CONT(cauchy, "cauchy", ({ D(), D(F(3), F(2) / 7) }), bm::cdf(bm::cauchy(dbl(d.median()), dbl(d.sigma())), x), -INF, INF)
CONT(triangle, "triangle", ({ D(), D(F(1), F(5) / 3, F(4)) }), bm::cdf(bm::triangular(dbl(d.a()), dbl(d.b()), dbl(d.c())), x), 0, 4)
CONT(lognormal, "lognormal", ({ D(), D(F(1), F(2) / 7) }), bm::cdf(bm::lognormal(dbl(d.m()), dbl(d.s())), x), 0, INF)
CONT(uniform_real, "uniform_real", ({ D(), D(F(-7) / 3, F(2)) }), (x - dbl(d.a())) / (dbl(d.b()) - dbl(d.a())), -7 / 3. - 1e-9, 2)
#else
CONT(gamma, "gamma", ({ D(), D(F(1) / 3, F(2)), D(F(7) / 2, F(1) / 3), D(F(1), F(3)) }), bm::cdf(bm::gamma_distribution<>(dbl(d.alpha()), dbl(d.beta())), x), 0, INF)
CONT(chi_squared, "chi_squared", ({ D(), D(F(7) / 2), D(F(30)) }), bm::cdf(bm::chi_squared(dbl(d.n())), x), 0, INF)
CONT(beta, "beta", ({ D(), D(F(7) / 2, F(2)), D(F(1) / 2, F(1) / 2) }), bm::cdf(bm::beta_distribution<>(dbl(d.alpha()), dbl(d.beta())), x), 0, 1)
CONT(student_t, "student_t", ({ D(F(3)), D(F(15) / 2) }), bm::cdf(bm::students_t(dbl(d.n())), x), -INF, INF)
CONT(fisher_f, "fisher_f", ({ D(F(3), F(5)), D(F(15) / 2, F(8)) }), bm::cdf(bm::fisher_f(dbl(d.m()), dbl(d.n())), x), 0, INF)
// counting distributions: the same values in every integer type, and with the real parameters in another type
template<template<class, class> class D, class Mk> void count(const char* dn, Mk mk) {
  engines([&](auto e, const char* en) { H::Rng g = H::rng(8); for (int t = 0; t < (int)H::n(20, 200); ++t) { auto a = mk((D<int, double>*)0, g, t), b = a;
    auto run = [&](auto d, const char* ty) { auto e1 = e, e2 = e; auto r = a; for (int i = 0; i < 60; ++i) { auto v = d(e1); int w = r(e2); if (!(v == (decltype(v))w)) { H::viol("type-differs", H::cat(dn, " #", t, " from ", en, ": value ", i, " in ", ty, " is not ", w)); return; } } H::eval(60); H::event("counts compared with int", 60); H::seen(H::cat(dn, t, en, ty)); };
    (void)b; run(mk.template as<i64>(a), "int64");
#ifdef BOOST_HAS_INT128
    run(mk.template as<i128>(a), "__int128");
#endif
  } }); H::sample(dn);
}
struct MkBinom { auto operator()(br::binomial_distribution<int, double>*, H::Rng& g, int t) const { return br::binomial_distribution<int, double>(t < 4 ? t * 5 : (int)g.below(5000), t == 0 ? 0.0 : t == 1 ? 1.0 : (double)g.below(1000) / 1000); } template<class I> auto as(const br::binomial_distribution<int, double>& d) const { return br::binomial_distribution<I, double>(d.t(), d.p()); } };
struct MkPois { auto operator()(br::poisson_distribution<int, double>*, H::Rng& g, int t) const { return br::poisson_distribution<int, double>(t < 8 ? 0.2 + t * 3 : 0.1 + g.below(100000) / 7.0); } template<class I> auto as(const br::poisson_distribution<int, double>& d) const { return br::poisson_distribution<I, double>(d.mean()); } };
struct MkGeom { auto operator()(br::geometric_distribution<int, double>*, H::Rng& g, int) const { return br::geometric_distribution<int, double>(0.001 + g.below(998) / 1000.); } template<class I> auto as(const br::geometric_distribution<int, double>& d) const { return br::geometric_distribution<I, double>(d.p()); } };
struct MkNB { auto operator()(br::negative_binomial_distribution<int, double>*, H::Rng& g, int) const { return br::negative_binomial_distribution<int, double>(1 + (int)g.below(40), 0.01 + g.below(980) / 1000.); } template<class I> auto as(const br::negative_binomial_distribution<int, double>& d) const { return br::negative_binomial_distribution<I, double>(d.k(), d.p()); } };
SCEN("binomial in wide types") { count<br::binomial_distribution>("binomial", MkBinom()); }
SCEN("poisson in wide types") { count<br::poisson_distribution>("poisson", MkPois()); }
SCEN("geometric in wide types") { count<br::geometric_distribution>("geometric", MkGeom()); }
SCEN("negative_binomial in wide types") { count<br::negative_binomial_distribution>("negative_binomial", MkNB()); }
// discrete_distribution: wide results follow the native ones; wide weights keep the proportions
template<class I, class W> void wide_disc(const char* in, const char* wn, bool bigw) {
  H::Rng g = H::rng(5); for (int t = 0; t < (int)H::n(12, 100); ++t) { std::size_t k = 1 + g.below(t < 6 ? 6 : 40); std::vector<double> wd; std::vector<W> w; double sum = 0; for (std::size_t i = 0; i < k; ++i) { unsigned x = g.below(5) == 0 ? 0 : (unsigned)g.below(1000); if (i + 1 == k && sum == 0) x = 5; wd.push_back(x); W z(x); if (bigw) z = z * W(1000000007u) * W(998244353u) * W(1000003u); w.push_back(z); sum += x; }
    engines([&](auto e, const char* en) { br::discrete_distribution<I, W> d(w.begin(), w.end()); auto p = d.probabilities(); std::string S = H::cat("discrete<", in, ",", wn, "> #", t, " from ", en); CHECK(p.size() == k, "disc-size", S); for (std::size_t i = 0; i < k && i < p.size(); ++i) CHECK(std::fabs(dbl(p[i]) - wd[i] / sum) < 1e-12, "disc-prob", S, ": probability ", i, " is ", dbl(p[i]), ", expected ", wd[i] / sum);
      std::vector<double> c(k); int n = (int)H::n(2000, 20000); for (int i = 0; i < n; ++i) { I v = d(e); if (!(v >= 0 && v < (I)(int)k)) { H::viol("disc-outside", H::cat(S, " gave ", zs(toZ(v)))); return; } std::size_t j = static_cast<std::size_t>(v); c[j]++; if (wd[j] == 0) { H::viol("disc-zero", H::cat(S, " gave ", j, " whose weight is zero")); return; } }
      double x = 0; int df = -1; for (std::size_t i = 0; i < k; ++i) { double ex = n * wd[i] / sum; if (ex < 1) continue; x += (c[i] - ex) * (c[i] - ex) / ex; ++df; } if (df > 0) { double z = zchi(x, df); CHECK(z < 8.5, "disc-law", S, ": chi-square z ", z, " over ", n, " values"); } H::eval(n); H::event("values of discrete distributions", n); H::seen(S); }); }
  H::sample(H::cat(in, wn)); }

#ifdef BOOST_HAS_INT128
SCEN("discrete: __int128 results") { wide_disc<i128, double>("__int128", "double", false); wide_disc<u128, double>("unsigned __int128", "double", false); }
#endif
SCEN("discrete: cpp_int results") { wide_disc<mp::cpp_int, double>("cpp_int", "double", false); wide_disc<mp::uint128_t, double>("uint128_t", "double", false); }
SCEN("discrete: real weights") { wide_disc<int, F>("int", nm<F>(), false); wide_disc<int, F>("int", nm<F>(), true); }
// bernoulli and points on spheres
SCEN("bernoulli") { engines([&](auto e, const char* en) { for (F p : { F(0), F(1), F(1) / 3, F(1) / 1000, 1 - F(1) / 1000 }) { br::bernoulli_distribution<F> d(p); int n = (int)H::n(4000, 40000), c = 0; for (int i = 0; i < n; ++i) c += d(e); double q = dbl(p), z = q == 0 || q == 1 ? (c == q * n ? 0 : 99) : (c - q * n) / std::sqrt(n * q * (1 - q)); CHECK(std::fabs(z) < 6.5, "bernoulli", "bernoulli<", nm<F>(), ">(", q, ") from ", en, ": ", c, " of ", n); H::eval(n); H::seen(H::cat("bern", q, en)); H::event("bernoulli values", n); object<F>("bernoulli", d, br::bernoulli_distribution<F>(F(1) / 7), e); } }); H::sample("bernoulli"); }
SCEN("sphere") { engines([&](auto e, const char* en) { for (int dim : { 1, 2, 3, 4, 7 }) { br::uniform_on_sphere<F, std::vector<F> > d(dim); std::vector<std::vector<double>> u(dim); int n = (int)H::n(300, 3000); for (int i = 0; i < n; ++i) { auto v = d(e); F s = 0; if ((int)v.size() != dim) { H::viol("sphere-size", H::cat("dimension ", dim)); return; } for (auto& c : v) s += c * c; F er = s - 1; if (er < 0) er = -er; CHECK(er <= 16 * dim * std::numeric_limits<F>::epsilon(), "sphere-length", "uniform_on_sphere<", nm<F>(), ">(", dim, ") from ", en, ": squared length off by ", dbl(er)); if (dim == 3) for (int k = 0; k < dim; ++k) u[k].push_back((dbl(v[k]) + 1) / 2); }
    if (dim == 3) for (auto& x : u) { double z = ks_z(x); CHECK(z < 3.6, "sphere-law", "uniform_on_sphere<", nm<F>(), ">(3) from ", en, ": Kolmogorov-Smirnov statistic of a coordinate ", z); } H::eval(n); H::event("points", n); H::seen(H::cat("sph", dim, en)); } }); H::sample("sphere"); }
#endif
#endif
