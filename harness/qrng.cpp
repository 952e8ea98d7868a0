// P22 sequences, P23 positions, P24 ends and bad dimensions of the quasi-random
// engines.  VERIF_PROP; VERIF_Q 1 Niederreiter, 2 Sobol, 3 Faure.
#include "h.hpp"
#include <fstream>
#include <limits>
#include <sstream>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/sobol.hpp>
#include <boost/random/faure.hpp>
namespace br = boost::random; typedef long double ld;
typedef std::vector<u64> Cols;   // column r of a generator matrix: bit w-1-j is digit j
static int deg(u64 p) { return 63 - __builtin_clzll(p); }
// ---- reference models, written from the publications ----
static const std::vector<u64>& irreducible() {   // polynomials over GF(2) in increasing order
  static std::vector<u64> v = [] { std::vector<u64> r; for (u64 p = 2; p < 65536; ++p) { bool ok = true; for (u64 q : r) { if (2 * deg(q) > deg(p)) break; u64 x = p; while (x && deg(x) >= deg(q)) x ^= q << (deg(x) - deg(q)); if (!x) { ok = false; break; } } if (ok) r.push_back(p); } return r; }();
  return v;
}
struct NbRef {
  static std::size_t maxdim() { return irreducible().size(); } static u64 poly(std::size_t d) { return irreducible()[d]; }
  static Cols cols(std::size_t d, int w) {   // Bratley, Fox and Niederreiter, TOMS algorithm 738
    const u64 p = poly(d); const int e = deg(p); Cols C(w); u128 b = 1;
    for (int q = 0; q * e < w; ++q) {
      u128 nb = 0; for (int k = 0; k <= e; ++k) if (p >> k & 1) nb ^= b << k;
      const int m = e * (q + 1); const u128 mask = ((u128)1 << m) - 1; std::vector<bool> v(w + e + m); u128 win = 0;
      for (int r = 0; r < (int)v.size(); ++r) { bool t; if (r < e * q) t = false; else if (r < m) t = true; else { u128 x = win & nb & mask; t = (__builtin_popcountll((u64)x) + __builtin_popcountll((u64)(x >> 64))) & 1; } v[r] = t; if (r < m) win |= (u128)t << r; else win = (win >> 1) | ((u128)t << (m - 1)); }
      for (int u = 0; u < e && q * e + u < w; ++u) for (int r = 0; r < w; ++r) if (v[r + u]) C[r] |= (u64)1 << (w - 1 - (q * e + u));
      b = nb;
    }
    return C;
  }
  static bool level(std::size_t d, int k) { return k % deg(poly(d)) == 0; }   // are blocks of 2^k points perfectly stratified?
};
struct SoRef {
  static const std::vector<std::vector<u64>>& table() { static std::vector<std::vector<u64>> t = [] { std::vector<std::vector<u64>> r; std::string f = __FILE__; std::ifstream in(f.substr(0, f.rfind('/') + 1) + "data/sobol.txt"); std::string line; while (std::getline(in, line)) { std::istringstream s(line); std::vector<u64> v; u64 x; while (s >> x) v.push_back(x); r.push_back(v); } if (r.size() < 3000) throw std::runtime_error("no Sobol table"); return r; }(); return t; }
  static std::size_t maxdim() { return table().size() + 1; } static u64 poly(std::size_t d) { return d ? table()[d - 1][0] : 1; }
  static Cols cols(std::size_t d, int w) {   // Bratley and Fox, TOMS algorithm 659, with the direction numbers of Joe and Kuo
    std::vector<u128> m(w); if (d == 0) for (int k = 0; k < w; ++k) m[k] = 1;
    else { auto& t = table()[d - 1]; const int s = deg(t[0]); for (int k = 0; k < w; ++k) { if (k < s) m[k] = t[k + 1]; else { m[k] = m[k - s]; for (int a = 1; a <= s; ++a) if (t[0] >> (s - a) & 1) m[k] ^= m[k - a] << a; } } }
    Cols C(w); for (int k = 0; k < w; ++k) C[k] = (u64)(m[k] << (w - 1 - k)); return C;
  }
  static bool level(std::size_t, int) { return true; }
};
static int rank(std::vector<u64> rows) { int r = 0; for (int b = 63; b >= 0; --b) { std::size_t i = r; while (i < rows.size() && !(rows[i] >> b & 1)) ++i; if (i == rows.size()) continue; std::swap(rows[i], rows[r]); for (std::size_t k = r + 1; k < rows.size(); ++k) if (rows[k] >> b & 1) rows[k] ^= rows[r]; ++r; } return r; }
static u64 prime_for(std::size_t d) { for (u64 p = std::max<std::size_t>(d, 2);; ++p) { bool ok = true; for (u64 q = 2; q * q <= p; ++q) if (p % q == 0) { ok = false; break; } if (ok) return p; } }
// digits of coordinate d of point i of Faure's sequence in base p
static std::vector<u64> faure_digits(u64 p, std::size_t d, u64 i) {
  std::vector<u64> a; while (i) { a.push_back(i % p); i /= p; } if (d == 0) return a; const std::size_t n = a.size(); std::vector<u64> y(n);
  std::vector<std::vector<u64>> C(n, std::vector<u64>(n)); for (std::size_t j = 0; j < n; ++j) for (std::size_t k = 0; k <= j; ++k) C[j][k] = (k == 0 || k == j) ? 1 % p : (C[j - 1][k - 1] + C[j - 1][k]) % p;
  for (std::size_t k = 0; k < n; ++k) { u64 pw = 1 % p, s = 0; for (std::size_t j = k; j < n; ++j) { s = (s + C[j][k] * pw % p * a[j]) % p; pw = pw * (d % p) % p; } y[k] = s; }
  return y;
}
// ---- one interface to all engines ----
template<class E> struct Q;
template<class E, class Ref, class U, unsigned w> struct NetQ {
  typedef U value; static u64 seeds() { return w == 64 ? ~0ull : (1ull << w) - 1; }   // number of vectors: all points but the first
  static std::size_t maxdim() { std::size_t n = Ref::maxdim(); while (n > 1 && Ref::poly(n - 1) > (u64)std::numeric_limits<U>::max()) --n; return n; }
  static bool table_limit(std::size_t d) { return d <= Ref::maxdim(); }
  static const Cols& cols(std::size_t d) { static std::map<std::size_t, Cols> c; auto it = c.find(d); if (it == c.end()) it = c.emplace(d, Ref::cols(d, w)).first; return it->second; }
  static U want(std::size_t, std::size_t d, u64 i) { const Cols& c = cols(d); u64 n = i + 1, g = n ^ (n >> 1), x = 0; for (unsigned r = 0; g; ++r, g >>= 1) if (g & 1) x ^= c[r]; return (U)x; }
  static bool eq(U a, U b) { return a == b; } static const bool net = true; static const unsigned W = w; typedef Ref ref; typedef U size; typedef U seedt;
};
template<class U, unsigned w> struct Q<br::niederreiter_base2_engine<U, w>> : NetQ<br::niederreiter_base2_engine<U, w>, NbRef, U, w> {};
template<class U, unsigned w> struct Q<br::sobol_engine<U, w>> : NetQ<br::sobol_engine<U, w>, SoRef, U, w> {};
template<class R, class S> struct Q<br::faure_engine<R, S>> {
  typedef R value; typedef S seedt; static const bool net = false; static const unsigned W = sizeof(S) * 8; static u64 seeds() { return W == 64 && !std::numeric_limits<S>::is_signed ? 0 : (u64)std::numeric_limits<S>::max() + 1; }   // 0 stands for 2^64
  static std::size_t maxdim() { return sizeof(S) == 1 ? 113 : 1117; }
  static R want(std::size_t n, std::size_t d, u64 i) { u64 p = prime_for(n); auto y = faure_digits(p, d, i); ld x = 0; for (std::size_t k = y.size(); k--;) x = (x + y[k]) / p; return (R)x; }
  static bool eq(R a, R b) { return std::fabs((ld)a - (ld)b) <= 4 * (ld)std::numeric_limits<R>::epsilon(); }
  static bool table_limit(std::size_t d) { return d <= 1117; }
};
template<class E> void table(E& e, std::size_t dim, u64 i, std::size_t from, std::size_t to, const std::string& key, const std::string& what) { for (std::size_t d = from; d < to; ++d) { auto v = e(), x = Q<E>::want(dim, d, i); CHECK(Q<E>::eq(v, x), key, what, ": vector ", i, ", coordinate ", (u64)d, " is ", (ld)v, ", not ", (ld)x); } }
static u64 last(u64 seeds) { return seeds - 1; }
template<class F> void all(F&& f) {
#if VERIF_Q == 1
#define A(U, w) f((br::niederreiter_base2_engine<U, w>*)0, H::cat("niederreiter_base2 ", #U, " ", w));
  A(std::uint64_t, 64) A(std::uint64_t, 48) A(std::uint64_t, 33) A(std::uint32_t, 32) A(std::uint32_t, 31) A(std::uint32_t, 24) A(std::uint32_t, 12) A(std::uint32_t, 7) A(std::uint16_t, 16) A(std::uint16_t, 11) A(std::uint8_t, 8) A(std::uint8_t, 5) A(std::uint64_t, 13) A(std::uint64_t, 2)
#elif VERIF_Q == 2
#define A(U, w) f((br::sobol_engine<U, w>*)0, H::cat("sobol ", #U, " ", w));
  A(std::uint64_t, 64) A(std::uint64_t, 48) A(std::uint64_t, 33) A(std::uint32_t, 32) A(std::uint32_t, 31) A(std::uint32_t, 24) A(std::uint32_t, 12) A(std::uint32_t, 7) A(std::uint16_t, 16) A(std::uint16_t, 11) A(std::uint8_t, 8) A(std::uint8_t, 5) A(std::uint64_t, 13) A(std::uint64_t, 2)
#else
#define A(R, S) f((br::faure_engine<R, S>*)0, H::cat("faure ", #R, " ", #S));
  A(double, std::uint64_t) A(double, std::uint32_t) A(double, std::uint16_t) A(double, std::uint8_t) A(float, std::uint32_t) A(float, std::uint16_t) A(long double, std::uint64_t) A(double, std::int32_t) A(double, std::int64_t)
#endif
}
template<class E> std::vector<std::size_t> dims(H::Rng& r, int few) { std::vector<std::size_t> v; for (std::size_t d : { 1, 2, 3, 4, 5, 7, 8, 13, 21, 40 }) if (d <= Q<E>::maxdim() && (int)v.size() < few) v.push_back(d); if (few > 8) { v.push_back(Q<E>::maxdim()); for (int k = 0; k < 2; ++k) v.push_back(1 + r.below(Q<E>::maxdim())); } return v; }
template<class E> std::vector<u64> starts(H::Rng& r, int n) { const u64 L = last(Q<E>::seeds()); std::vector<u64> v = { 0, 1, L / 2, L / 3, L - std::min<u64>(L, 3) }; for (int k = 0; k < n; ++k) v.push_back(r.below(L) >> r.below(Q<E>::W)); for (unsigned b = 2; b < Q<E>::W; b += 1 + r.below(5)) { v.push_back((1ull << b) - 2); v.push_back(1ull << b); } for (u64& x : v) x = std::min(x, L); return v; }

#if VERIF_PROP == 22
template<class E, class QQ> void columns(const std::string& name, QQ) {   // every generator matrix
  if constexpr (Q<E>::net) {
    const unsigned w = Q<E>::W; std::size_t D = Q<E>::maxdim(); if (w != 64 && w != 32 && w != 12 && !H::st().thorough) D = std::min<std::size_t>(D, 600); E e(D); std::vector<Cols> col(D, Cols(w));
    CHECK(E::min() == 0 && (u64)E::max() == (w == 64 ? ~0ull : (1ull << w) - 1), "bounds", name, ": min() and max()"); CHECK(e.dimension() == D, "dimension", name);
    for (unsigned k = 0; k < w; ++k) { e.seed((typename Q<E>::size)((1ull << k) - 1)); for (std::size_t d = 0; d < D; ++d) { u64 v = e(); if (v > (u64)E::max()) H::viol("bounds", H::cat(name, ": value ", v)); col[d][k] = v ^ (k ? col[d][k - 1] : 0); } }
    for (std::size_t d = 0; d < D; ++d) { Cols C = Q<E>::ref::cols(d, w); for (unsigned k = 0; k < w; ++k) { H::eval(); if (C[k] != col[d][k]) { H::viol("sequence", H::cat(name, ": dimension ", (u64)d + 1, ", generator of bit ", k, " is ", col[d][k], ", not ", C[k])); break; } }
      if (d < 200 || d % 16 == 0 || H::st().thorough) for (unsigned k = 1; k <= w; ++k) if (Q<E>::ref::level(d, k)) { std::vector<u64> rows; for (unsigned r = 0; r < k; ++r) rows.push_back(col[d][r] >> (w - k)); H::eval(); if (rank(rows) != (int)k) { H::viol("stratified", H::cat(name, ": dimension ", (u64)d + 1, ", blocks of 2^", k, " points are not stratified")); break; } H::event("levels of stratification shown by rank"); }
      H::seen(H::cat(name, (u64)d)); }
    H::event("generator matrices", D); H::sample(H::cat(name, ": generator matrices of ", (u64)D, " dimensions read off the engine"));
  }
}
template<class E> void each_dimension(const std::string& name) {   // the base of every Faure dimension
  if constexpr (!Q<E>::net) {
    H::Rng r(H::st().seed * 41 + 5); const u64 L = last(Q<E>::seeds()); u64 vectors = 0;
    for (std::size_t n = 1; n <= Q<E>::maxdim(); ++n) {
      const u64 p = prime_for(n); E e(n);
      std::vector<u64> is = { 1, p - 1, p, p + 1, p * p + r.below(p), r.below(p * p * p) };
      for (u128 q = p * p; q - 1 < L; q *= p) if (n < 12 || n % 16 == 15 || r.below(8) == 0) is.push_back((u64)(q - 1));   // the largest coordinates
      for (u64 i : is) { if (i >= L) continue;
        e.seed((typename Q<E>::seedt)i); std::vector<typename Q<E>::value> v(n); for (auto& x : v) x = e(); ++vectors;
        for (std::size_t d : { (std::size_t)0, (std::size_t)1, n - 1, (std::size_t)r.below(n), (std::size_t)r.below(n) }) if (d < n) { H::eval(); auto x = Q<E>::want(n, d, i); if (!Q<E>::eq(v[d], x)) H::viol("sequence", H::cat(name, " of dimension ", (u64)n, ": vector ", i, ", coordinate ", (u64)d, " is ", (ld)v[d], ", not ", (ld)x)); }
        for (auto x : v) if (!(x >= (E::min)() && x < (E::max)())) H::viol("bounds", H::cat(name, " of dimension ", (u64)n, ": value ", (ld)x)); }
      H::seen(n); }
    H::event("vectors of every Faure dimension", vectors); H::sample(H::cat(name, ": 6 vectors of each dimension up to ", (u64)Q<E>::maxdim()));
  }
}
template<class E> void sequence(const std::string& name) {
  H::Rng r = H::rng(); for (std::size_t n : dims<E>(r, 100)) { E e(n); const u64 S = Q<E>::seeds(), L = last(S); u64 len = std::min<u64>(L, H::n(200000, 3000000) / (Q<E>::net ? n : n * 10) + 3); std::string what = H::cat(name, ", ", (u64)n, " dimensions");
    auto check = [&](auto v, std::size_t d, u64 i) { auto x = Q<E>::want(n, d, i); H::eval(); if (!Q<E>::eq(v, x) || !(v >= E::min()) || !(Q<E>::net ? v <= E::max() : v < E::max())) H::viol(!Q<E>::eq(v, x) ? "sequence" : "bounds", H::cat(what, ": vector ", i, ", coordinate ", (u64)d, " is ", (ld)v, ", not ", (ld)x)); };
    for (u64 i = 0; i < len; ++i) for (std::size_t d = 0; d < n; ++d) check(e(), d, i);
    if (L >= len) { std::vector<typename E::result_type> buf(n * 2 + 1); if (L > len + 4) { e.generate(buf.begin(), buf.end()); for (std::size_t k = 0; k < buf.size(); ++k) check(buf[k], k % n, len + k / n); } }
    for (u64 s : starts<E>(r, n > 100 ? 5 : 40)) { e.seed((typename Q<E>::seedt)s); for (u64 i = s; i < s + (n > 100 ? 2 : 9) && i <= L && i >= s; ++i) { for (std::size_t d = 0; d < n; ++d) check(e(), d, i); H::seen(H::cat(what, i)); } H::event("starting points"); }
    H::event("vectors", len); H::seen(what); H::sample(H::cat(what, ": ", len, " vectors in order"));
  }
}
template<class E> void stratified(const std::string& name) {
  H::Rng r = H::rng(); 
  if constexpr (Q<E>::net) {
    const std::size_t n = std::min<std::size_t>(Q<E>::maxdim(), 24); const unsigned w = Q<E>::W; 
    for (unsigned k = 1; k <= std::min(w - 1, 13u); ++k) for (int rep = 0; rep < (int)H::n(3, 20); ++rep) { u64 blocks = Q<E>::seeds() >> k; if (blocks < 2) continue; u64 m = 1 + (rep ? r.below(blocks - 1) : 0); E e(n); e.seed((typename Q<E>::size)((m << k) - 1)); std::vector<std::vector<u32>> pts(n, std::vector<u32>(1u << k));
      for (u64 i = 0; i < 1ull << k; ++i) for (std::size_t d = 0; d < n; ++d) pts[d][i] = (u64)e() >> (w - k);
      for (std::size_t d = 0; d < n; ++d) if (Q<E>::ref::level(d, k)) { std::vector<u32> c(1u << k); for (u32 x : pts[d]) ++c[x]; H::eval(c.size()); for (u32 x : c) if (x != 1) { H::viol("stratified", H::cat(name, ": block ", m, " of 2^", k, " points, coordinate ", (u64)d)); break; } H::event("blocks of one coordinate"); }
      if (n >= 2 && VERIF_Q == 2) for (unsigned a = 0; a <= k; ++a) { std::vector<u32> c(1u << k); for (u64 i = 0; i < 1ull << k; ++i) ++c[((u64)(pts[0][i] >> (k - a)) << (k - a)) | (pts[1][i] >> a)]; H::eval(c.size()); for (u32 x : c) if (x != 1) { H::viol("net", H::cat(name, ": block ", m, " of 2^", k, " points, the leading coordinates miss an elementary interval of shape ", a, ",", k - a)); break; } H::event("shapes of elementary intervals"); }
      H::seen(H::cat(name, k, m)); H::event("blocks"); }
  } else {
    for (std::size_t n : { 1, 2, 3, 4, 5, 6, 7, 11 }) { const u64 p = prime_for(n); 
      for (int k = 1; std::pow((double)p, k) <= 20000 && std::pow((double)p, k) * 3 < std::ldexp(1.0, Q<E>::W); ++k) for (int rep = 0; rep < (int)H::n(3, 20); ++rep) { u64 B = 1; for (int j = 0; j < k; ++j) B *= p; u64 blocks = std::min<u64>(last(Q<E>::seeds()) / B, sizeof(typename Q<E>::value) == 4 ? 20000 / B + 2 : 1000000000000ull / B), m = rep < 2 ? rep : r.below(blocks); if (m >= blocks) continue; E e(n); e.seed((typename Q<E>::seedt)(m * B)); std::vector<std::vector<u64>> pts(n, std::vector<u64>(B)); for (u64 i = 0; i < B; ++i) for (std::size_t d = 0; d < n; ++d) { u64 c = (u64)std::floor((ld)e() * B + 4 * B * (ld)std::numeric_limits<typename Q<E>::value>::epsilon()); pts[d][i] = std::min(c, B - 1); }
        std::vector<int> shape(n); std::function<void(std::size_t, int)> rec = [&](std::size_t d, int left) { if (d + 1 == n) { shape[d] = left; std::vector<u32> c(B); for (u64 i = 0; i < B; ++i) { u64 cell = 0; for (std::size_t q = 0; q < n; ++q) { u64 s = 1, t = 1; for (int j = 0; j < shape[q]; ++j) s *= p; for (int j = shape[q]; j < k; ++j) t *= p; cell = cell * s + pts[q][i] / t; } ++c[cell]; } H::eval(B); for (u32 x : c) if (x != 1) { H::viol("net", H::cat(name, ": ", (u64)n, " dimensions, block ", m, " of ", p, "^", k, " points misses an elementary interval")); break; } H::event("shapes of elementary intervals"); return; } for (int s = 0; s <= left; ++s) { shape[d] = s; rec(d + 1, left - s); } };
        if (std::pow(k + 1.0, n - 1.0) < 3000) rec(0, k); H::seen(H::cat(name, (u64)n, k, m)); H::event("blocks"); } }
  }
  H::sample(H::cat(name, ": aligned blocks counted cell by cell"));
}
template<class E> void scen(const std::string& name) {
  if (Q<E>::net) H::scens().push_back({ name + " matrices", [=] { columns<E>(name, 0); } });
  if (!Q<E>::net) H::scens().push_back({ name + " dimensions", [=] { each_dimension<E>(name); } });
  H::scens().push_back({ name + " sequence", [=] { sequence<E>(name); } });
  if (Q<E>::W > 2) H::scens().push_back({ name + " blocks", [=] { stratified<E>(name); } });
}
#elif VERIF_PROP == 23
// position of an engine: vector i and coordinate c < n of the value it will deliver next
template<class E> struct Pos { std::size_t n; u64 i; std::size_t c; };
template<class E> struct Obj { E e; std::size_t n; u64 i; std::size_t c; explicit Obj(std::size_t n) : e(n), n(n), i(0), c(0) {} };
template<class E> void draw(Obj<E>& o, const std::string& what) { auto v = o.e(), x = Q<E>::want(o.n, o.c, o.i); CHECK(Q<E>::eq(v, x), "sequence", what, ": vector ", o.i, ", coordinate ", (u64)o.c, " of ", (u64)o.n, " is ", (ld)v, ", not ", (ld)x); if (++o.c == o.n) { o.c = 0; ++o.i; } }
template<class E> void peek(const Obj<E>& o, const std::string& what, int k) { Obj<E> p(o); const u64 L = last(Q<E>::seeds()); for (int j = 0; j < k && p.i <= L && L - p.i >= 2; ++j) draw(p, what); }
template<class C, class E> std::basic_string<C> text(const E& e) { std::basic_ostringstream<C> s; s << e; CHECK(!s.fail(), "write", "writing failed"); return s.str(); }
template<class E> void histories(const std::string& name, int part) {
  H::Rng r = H::rng(part); const u64 L = last(Q<E>::seeds()); auto dd = dims<E>(r, part % 4 == 3 ? 20 : 8); for (auto& d : dd) if (d > 400 && !H::st().thorough) d = 100 + d % 300; typedef typename Q<E>::seedt S;
  for (int h = 0; h < (int)(part == 3 ? H::n(6, 20) : H::n(60, 600)); ++h) {
    std::vector<Obj<E>> o; const int K = 4; for (int k = 0; k < K; ++k) o.push_back(Obj<E>(dd[r.below(dd.size())])); std::string hist; const bool big = o[0].n > 100 || o[1].n > 100 || o[2].n > 100 || o[3].n > 100;
    for (int step = 0; step < (big ? 12 : 40); ++step) {
      Obj<E>& a = o[r.below(K)]; Obj<E>& b = o[r.below(K)]; std::string op; const bool end = a.i > L || (L == ~0ull && a.i == 0 && a.c == 0 && false);
      auto at = [&](u64 i, std::size_t c) { a.i = i; a.c = c; };
      switch (r.below(13)) {
      case 0: { u64 k = 1 + r.below(3 * a.n + 2); op = H::cat("draw ", k); for (u64 j = 0; j < k && a.i <= L && !(L - a.i < 2); ++j) draw(a, name + hist + op); break; }
      case 1: case 2: { u64 left = L - std::min(a.i, L); u64 v = r.below(2) ? r.below(10) : r.below(4) ? r.below(left + 1 ? left + 1 : 0) >> r.below(64) : left; v = std::min(v, left > 4 ? left - 4 : 0); u128 z = (u128)v * a.n + r.below(a.n); if (z > ~0ull) z = r.below(1000); if ((u128)a.i + (u128)(z + a.c) / a.n + 3 > L) break; op = H::cat("discard ", (u64)z); a.e.discard((u64)z); u128 np = (u128)a.i * a.n + a.c + z; at((u64)(np / a.n), (std::size_t)(np % a.n)); break; }
      case 3: { u64 s = r.below(L) >> r.below(Q<E>::W); if (r.below(8) == 0) s = L - std::min<u64>(L, 4 + r.below(3)); op = H::cat("seed ", s); a.e.seed((S)s); at(s, 0); break; }
      case 4: op = "seed()"; a.e.seed(); at(0, 0); break;
      case 5: { op = "seed again"; u64 s = a.i; if (s > L) break; a.e.seed((S)s); at(s, 0); break; }
      case 6: case 7: case 8: { op = "restore"; if (a.i > L || (a.i == 0 && L == ~0ull && a.c == 0 && text<char>(a.e).find(H::cat(L)) != std::string::npos)) break; bool wide = r.below(4) == 0; Obj<E> keep(b); if constexpr (sizeof(S) == 1) break; else if (!wide) { std::stringstream s; switch (r.below(4)) { case 0: s.fill('*'); break; case 1: s << std::left << std::boolalpha; break; case 2: s << std::uppercase; break; default: break; } auto fl = s.flags(); s << a.e; CHECK(s.flags() == fl, "format", name, ": writing changed the format"); std::string t = s.str(); s << ' ' << 4711; s >> b.e; int x = 0; CHECK(!s.fail(), "read", name, hist, op, ": restoring from '", t, "' failed"); s >> x; CHECK(x == 4711, "text", name, ": data after the engine"); CHECK(s.flags() == fl, "format", name, ": reading changed the format"); CHECK(text<char>(b.e) == t || b.e == a.e, "rewrite", name, ": the restored engine writes '", text<char>(b.e), "', not '", t, "'"); } else { std::wstringstream s; s << a.e; s >> b.e; CHECK(!s.fail(), "read", name, hist, op, ": restoring from a wide stream failed"); }
        b.n = a.n; b.i = a.i; b.c = a.c; CHECK(b.e.dimension() == a.n, "restored dimension", name, hist, op); CHECK(b.e == a.e && !(b.e != a.e), "restored", name, hist, op, ": the restored engine is not equal"); if (&a != &b) peek(b, name + hist + op + ": restored engine", 2 * (int)std::min<std::size_t>(b.n, 50) + 1); H::event("restored"); break; }
      case 9: op = "assign"; b = a; CHECK(b.e == a.e, "copy", name, hist, op); break;
      case 10: { op = "copy"; E c(a.e); CHECK(c == a.e, "copy", name, hist, op); if (a.i < L - 2 && a.i <= L - 2) { E keep(a.e); c(); c.discard(a.n); CHECK(a.e == keep, "copy", name, hist, op, ": drawing from a copy changed the original"); CHECK(!(c == a.e), "equality", name, hist, op, ": the advanced copy is equal"); } break; }
      case 11: { op = "closest"; if (&a == &b || a.i > L || L - a.i < 3) break; b = a; b.e(); auto adv = [&](Obj<E>& x) { if (++x.c == x.n) { x.c = 0; ++x.i; } }; adv(b); CHECK(b.e != a.e && !(b.e == a.e), "equality", name, hist, op, ": engines one value apart are equal"); a.e.discard(1); adv(a); CHECK(b.e == a.e && !(b.e != a.e), "equality", name, hist, op, ": engines at one position are not equal"); break; }
      default: { op = "generate"; std::size_t k = r.below(2 * a.n + 3); if (a.i > L || L - a.i < 5) break; std::vector<typename E::result_type> v(k + 1, (typename E::result_type)0); a.e.generate(v.begin(), v.begin() + k); for (std::size_t j = 0; j < k; ++j) { auto x = Q<E>::want(a.n, a.c, a.i); CHECK(Q<E>::eq(v[j], x), "generate", name, hist, op, ": element ", (u64)j); if (++a.c == a.n) { a.c = 0; ++a.i; } } CHECK(v[k] == 0, "generate", name, ": wrote past the range"); break; }
      }
      (void)end; hist += " " + op + ";"; if (hist.size() > 300) hist = "..." + hist.substr(hist.size() - 280);
      for (auto& x : o) if (x.i <= L && (L - x.i >= 1)) peek(x, name + hist, 1 + (int)r.below(3));
      for (int x = 0; x < K; ++x) for (int y = 0; y < x; ++y) { bool same = o[x].n == o[y].n && o[x].i == o[y].i && o[x].c == o[y].c; CHECK((o[x].e == o[y].e) == same && (o[x].e != o[y].e) == !same && (o[y].e == o[x].e) == same, "equality", name, hist, ": engines at ", (u64)o[x].n, ":", o[x].i, ":", (u64)o[x].c, " and ", (u64)o[y].n, ":", o[y].i, ":", (u64)o[y].c, " compare ", same ? "unequal" : "equal"); }
      H::event("operations"); H::seen(H::cat(name, op, (u64)a.n, a.i, (u64)a.c));
    }
    if (h == 0) H::sample(H::cat(name, hist));
  }
}
// seeding, discarding and drawing agree from every coordinate
template<class E> void agree(const std::string& name) {
  H::Rng r = H::rng(); const u64 L = last(Q<E>::seeds());
  for (std::size_t n : dims<E>(r, 7)) { const E zero(n); for (u64 i = 0; i < std::min<u64>(L - 1, 40); ++i) for (std::size_t c = 0; c < std::min<std::size_t>(n, 9); ++c) {
    E a(zero), b(zero), d(zero); for (u64 k = 0; k < i * n + c; ++k) a(); b.seed((typename Q<E>::seedt)i); b.discard(c); d.discard(i * n + c); CHECK(a == b && b == a && a == d && !(a != b), "equality", name, ": drawn, seeded and skipped to ", (u64)n, ":", i, ":", (u64)c, " are not equal"); 
    for (u64 k = 0; k < n + 2 && i * n + c + k < (L - 1) * n; ++k) { E x(a), y(b); x.discard(k); for (u64 j = 0; j < k; ++j) y(); CHECK(x == y, "equality", name, ": discard(", k, ") from ", (u64)n, ":", i, ":", (u64)c); auto va = x(), vb = y(); CHECK(va == vb, "discard", name, ": discard(", k, ") from ", (u64)n, ":", i, ":", (u64)c, " continues with ", (ld)va, ", not ", (ld)vb); CHECK(x == y, "equality", name, ": after discard(", k, ")"); }
    auto va = a(), vb = b(), vd = d(); CHECK(va == vb && va == vd, "discard", name, ": drawn, seeded and skipped to ", (u64)n, ":", i, ":", (u64)c, " continue with ", (ld)va, ", ", (ld)vb, ", ", (ld)vd); H::seen(H::cat(name, (u64)n, i, (u64)c)); H::event("positions"); } }
  H::sample(H::cat(name, ": all positions of the first 40 vectors reached by drawing, seeding and skipping"));
}
template<class E> void scen(const std::string& name) { for (int p = 0; p < 2; ++p) if (Q<E>::W > 4) H::scens().push_back({ H::cat(name, " histories ", p), [=] { histories<E>(name, p); } }); if (Q<E>::W > 4 && Q<E>::W <= 64) H::scens().push_back({ name + " large dimensions", [=] { histories<E>(name, 3); } }); H::scens().push_back({ name + " positions", [=] { agree<E>(name); } }); }
#else
template<class F> int outcome(F&& f, std::string& msg) { try { f(); } catch (const std::range_error& e) { msg = e.what(); return 1; } catch (const std::invalid_argument& e) { msg = e.what(); return 2; } catch (const std::exception& e) { msg = e.what(); return 3; } catch (...) { return 4; } return 0; }
static const char* const OUT[] = { "no error", "range_error", "invalid_argument", "another standard exception", "something else" };
template<class E> void dead(E& e, const std::string& what, std::size_t n) {   // an engine that delivered its last value
  std::string m; for (int k = 0; k < 3; ++k) { E before(e); int o = outcome([&] { e(); }, m); CHECK(o == 1, "end", what, ": drawing past the end gives ", OUT[o]); CHECK(e == before, "end state", what, ": drawing past the end moved the engine"); o = outcome([&] { e.discard(1); }, m); CHECK(o == 1, "end", what, ": discarding past the end gives ", OUT[o]); CHECK(e == before, "end state", what, ": discarding past the end moved the engine"); o = outcome([&] { e.discard(n * 3); }, m); CHECK(o == 1, "end", what, ": discarding vectors past the end gives ", OUT[o]); std::vector<typename E::result_type> v(n + 1); o = outcome([&] { e.generate(v.begin(), v.end()); }, m); CHECK(o == 1, "end", what, ": generate past the end gives ", OUT[o]); E c(e); o = outcome([&] { c(); }, m); CHECK(o == 1, "end", what, ": a copy"); H::event("errors at the end", 5); }
  int o = outcome([&] { e.discard(0); }, m); CHECK(o == 0, "end", what, ": discard(0) at the end gives ", OUT[o]);
}
template<class E> void usable(E& e, std::size_t n, const std::string& what) { typedef typename Q<E>::seedt S; const u64 L = last(Q<E>::seeds()); for (u64 s : { (u64)0, std::min<u64>(L, 5), L / 2 }) { E t(e); t.seed((S)s); table(t, n, s, 0, n, "usable", what + ": reseeded"); } E t(e); t.seed(); table(t, n, 0, 0, n, "usable", what + ": reseeded"); E f(n); t.seed(); CHECK(t == f, "usable", what, ": reseeded engine differs from a new one"); }
template<class E> void ends(const std::string& name) {
  H::Rng r = H::rng(); typedef typename Q<E>::seedt S; const u64 SZ = Q<E>::seeds(), L = last(SZ); std::string m;
  for (std::size_t n : dims<E>(r, 8)) { const std::string w = H::cat(name, ", ", (u64)n, " dimensions");
    if (SZ && SZ <= 70000 && (SZ * n < 1200000 || H::st().thorough)) {   // to the end by drawing
      E e(n); bool ok = true; std::set<std::vector<typename E::result_type>> pts; for (u64 i = 0; i < SZ && ok; ++i) { std::vector<typename E::result_type> v(n); int o = outcome([&] { for (auto& x : v) x = e(); }, m); if (o) { H::viol("count", H::cat(w, ": ", OUT[o], " after ", i, " of ", SZ, " vectors")); ok = false; } else { pts.insert(v); if (i % 97 == 0 || i + 4 > SZ) for (std::size_t d = 0; d < n; ++d) { auto x = Q<E>::want(n, d, i); CHECK(Q<E>::eq(v[d], x), "values", w, ": vector ", i, ", coordinate ", (u64)d, " is ", (ld)v[d], ", not ", (ld)x); } } }
      if (ok) { if (!std::is_same<typename E::result_type, float>::value) CHECK(pts.size() == SZ, "repeat", w, ": only ", (u64)pts.size(), " of ", SZ, " vectors differ"); dead(e, w + ", drawn to the end", n); usable(e, n, w + ", drawn to the end"); } H::event("sequences drawn to the end"); }
    for (u64 s : { L, L - 1, L - std::min<u64>(L, 5) }) for (std::size_t c = 0; c <= std::min<std::size_t>(n, 6); ++c) {   // from near the end
      E e(n); int o = outcome([&] { e.seed((S)s); }, m); CHECK(o == 0, "seed", w, ": seed(", s, ") gives ", OUT[o]); if (o) continue; for (std::size_t k = 0; k < c; ++k) e(); E byskip(e), past(e); u64 left = (L - s) * n + n - c; 
      std::size_t d = c; u64 i = s; for (u64 k = 0; k < left; ++k) { if (d == n) { d = 0; ++i; } typename E::result_type v = 0; o = outcome([&] { v = e(); }, m); if (o) { H::viol("count", H::cat(w, ": ", OUT[o], " with ", left - k, " values to go")); break; } CHECK(Q<E>::eq(v, Q<E>::want(n, d, i)), "values", w, ": vector ", i, ", coordinate ", (u64)d); ++d; } if (o) continue;
      dead(e, w + ", near the end", n); usable(e, n, w + ", near the end"); o = outcome([&] { byskip.discard(left); }, m); CHECK(o == 0, "discard", w, ": discard to the end gives ", OUT[o]); if (!o) { CHECK(byskip == e, "discard", w, ": discarding to the end"); dead(byskip, w + ", skipped to the end", n); usable(byskip, n, w + ", skipped to the end"); }
      for (u64 extra : { (u64)1, (u64)n, (u64)n * 7 + 1, (u64)~0ull - left, (u64)~0ull / 2, (u64)~0ull / n * n - left - n }) { if (extra == 0 || (Q<E>::W >= 63 && extra < (u64)n)) {} E x(past), keep(past); if (left + extra < left) continue; o = outcome([&] { x.discard(left + extra); }, m); CHECK(o == 1, "discard", w, ": discard(", left + extra, ") from ", s, ":", (u64)c, " gives ", OUT[o]); if (o == 1) CHECK(x == keep, "end state", w, ": a failed discard moved the engine"); typename E::result_type v; if (o == 1 && c < n) { v = x(); CHECK(Q<E>::eq(v, Q<E>::want(n, c, s)), "end state", w, ": a failed discard spoilt the values"); } usable(x, n, w + ", discarded too far"); H::event("discards past the end"); }
      if (sizeof(S) > 1) { E y(2); std::stringstream t; t << byskip; o = outcome([&] { t >> y; }, m); CHECK(o == 0 && y == byskip, "restore", w, ": restoring an exhausted engine gives ", OUT[o]); if (!o) dead(y, w + ", restored at the end", n); }
      H::seen(H::cat(w, s, (u64)c)); H::event("ends reached"); }
    int o = 0; // seeds past the end
    if (SZ) { std::set<u64> far; const u64 top = (u64)std::numeric_limits<S>::max(); auto add = [&](u64 s) { if (s > L && s <= top) far.insert(s); };
      for (u64 k = 1; k < 300; ++k) add(L + k); for (int a = 0; a < 64; ++a) for (u64 dlt = 0; dlt < 4; ++dlt) { u64 p = (u64)1 << a; add(p + dlt); add(p - 1 - dlt); add(L + p + dlt); add(L * 2 + p - dlt); add((p << 1 | p) - dlt); } for (int k = 0; k < 300; ++k) { add(r.next() >> r.below(64)); add(L + (r.next() >> r.below(64))); } for (u64 dlt = 0; dlt < 8; ++dlt) add(top - dlt);
      E e(n); e(); const E keep(e); for (u64 s : far) { o = outcome([&] { e.seed((S)s); }, m); CHECK(o == 1, "seed", w, ": seed(", s, ") gives ", OUT[o]); CHECK(e == keep, "end state", w, ": a failed seed moved the engine"); H::seen(H::cat(w, "past", s)); if (o != 1) break; } H::event("seeds past the end", far.size()); }
    if (SZ) { for (u64 s : { L + 1, L + 2, (u64)std::numeric_limits<S>::max() }) { if (s > (u64)std::numeric_limits<S>::max() || s <= L) continue; E e(n), keep(n); e(); e(); keep = e; o = outcome([&] { e.seed((S)s); }, m); CHECK(o == 1, "seed", w, ": seed(", s, ") gives ", OUT[o]); CHECK(e == keep, "end state", w, ": a failed seed moved the engine"); auto va = e(), vb = keep(); CHECK(va == vb, "end state", w, ": a failed seed spoilt the values"); usable(e, n, w + ", seeded past the end"); if (sizeof(S) == 1) continue; std::stringstream t; t << (u64)n << ' ' << s << " 0"; E f(n); o = outcome([&] { t >> f; }, m); CHECK(o == 1 || t.fail(), "restore", w, ": reading a position past the end gives ", OUT[o]); usable(f, n, w + ", read past the end"); H::event("seeds past the end"); } }
    H::sample(H::cat(w, ": ", SZ, " vectors; the end reached by drawing, discarding, seeding"));
  }
}
template<class E> void dimensions(const std::string& name) {
  std::string m; H::Rng r = H::rng();
  for (std::size_t d : { (std::size_t)0, (std::size_t)4721, (std::size_t)100000, (std::size_t)1 << 31, ((std::size_t)1 << 32) + 2, (std::size_t)1 << 40, (std::size_t)-1, (std::size_t)-2, (std::size_t)1 << 58, ((std::size_t)1 << 60) + 3 }) { if (Q<E>::table_limit(d) && d) continue; int o = outcome([&] { E e(d); }, m); CHECK(o == 2, "dimension", name, ": ", (u64)d, " dimensions give ", OUT[o]);
    for (std::size_t n : { 1, 3 }) { E e(n); e(); std::stringstream t; t << (u64)d << " 0 0"; o = outcome([&] { t >> e; }, m); CHECK(o == 2 || t.fail(), "dimension", name, ": reading ", (u64)d, " dimensions gives ", OUT[o]); CHECK(e.dimension() == n, "dimension", name, ": a failed read changed the dimension"); usable(e, n, name + ", after reading a bad dimension"); } H::seen(H::cat(name, (u64)d)); H::event("bad dimensions"); }
  { std::size_t d = Q<E>::maxdim() + 1; if (!Q<E>::table_limit(d)) { int o = outcome([&] { E e(d); }, m); CHECK(o == 2, "dimension", name, ": ", (u64)d, " dimensions give ", OUT[o]); } else if (Q<E>::net) { int o = outcome([&] { E e(d); }, m); CHECK(o == 1 || o == 2, "dimension", name, ": ", (u64)d, " dimensions give ", OUT[o]); } }
  const std::size_t M = Q<E>::maxdim(); std::size_t step = H::st().thorough ? 1 : M > 300 ? 37 : 1; for (std::size_t d = 1;; d = std::min(d + (d < 130 ? 1 : step), M)) { int o = outcome([&] { E e(d); CHECK(e.dimension() == d, "dimension", name, ": dimension() of ", (u64)d, " is ", (u64)e.dimension()); if (d < 40 || d % 50 == 0 || d == M) table(e, d, 0, 0, d, "values", name); else e(); }, m); CHECK(o == 0, "dimension", name, ": ", (u64)d, " dimensions give ", OUT[o], " ", m); H::seen(H::cat(name, (u64)d)); H::event("good dimensions"); if (d == M) break; }
  if (!Q<E>::net && std::numeric_limits<typename Q<E>::seedt>::is_signed) { E e(3); int o = outcome([&] { e.seed((typename Q<E>::seedt)-1); }, m); CHECK(o == 1, "seed", name, ": a negative seed gives ", OUT[o]); }
  for (const char* bad : { "", "x", "3", "3 x", "3 1", "3 1 x", "-", "99999999999999999999999 0 0" }) { E e(2); e(); E keep(e); std::istringstream t(bad); int o = outcome([&] { t >> e; }, m); CHECK(o || t.fail(), "read", name, ": reading '", bad, "' succeeds"); usable(e, e.dimension(), name + ", after a failed read"); H::event("bad texts"); }
  H::sample(H::cat(name, ": dimensions 1 to ", (u64)M, " accepted, others refused"));
}
template<class E> void scen(const std::string& name) { H::scens().push_back({ name + " end", [=] { ends<E>(name); } }); H::scens().push_back({ name + " dimensions", [=] { dimensions<E>(name); } }); }
#endif
static bool reg = [] { all([](auto* e, const std::string& name) { scen<typename std::remove_pointer<decltype(e)>::type>(name); }); return true; }();
