// P17: weighted distributions.  VERIF_W = weight type.
#include "h.hpp"
#include "src.hpp"
#include <list>
#include <forward_list>
#include <iterator>
#include <numeric>
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
namespace br = boost::random;
typedef long double ld; typedef long double ldouble; typedef VERIF_W W;
const bool REALW = std::is_floating_point<W>::value;
static double zchi(double x, double df) { double a = 2.0 / (9 * df); return (std::cbrt(x / df) - (1 - a)) / std::sqrt(a); }
static ld total(const std::vector<W>& w) { ld s = 0; for (W v : w) s += (ld)v; return s; }
static u128 itotal(const std::vector<W>& w) { u128 s = 0; for (W v : w) s += (u128)(u64)v; return s; }
static u64 gcd(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
template<class I> std::string label(const std::vector<W>& w) { std::string r = "["; for (std::size_t k = 0; k < w.size() && k < 10; ++k) r += (k ? "," : "") + H::cat((ld)w[k]); return H::cat(std::is_signed<I>::value ? "i" : "u", sizeof(I) * 8, " weights ", r, w.size() > 10 ? H::cat(",... ", (u64)w.size(), "]") : "]"); }

// single pass iterator
struct InIt { typedef std::input_iterator_tag iterator_category; typedef W value_type; typedef std::ptrdiff_t difference_type; typedef const W* pointer; typedef const W& reference;
  std::shared_ptr<std::size_t> p; const std::vector<W>* v;
  const W& operator*() const { return (*v)[*p]; } InIt& operator++() { ++*p; return *this; } struct Px { W x; W operator*() const { return x; } }; Px operator++(int) { Px r{ **this }; ++*p; return r; }
  bool end() const { return !v || *p >= v->size(); } bool operator==(const InIt& o) const { return end() == o.end(); } bool operator!=(const InIt& o) const { return !(*this == o); } };

struct Mass { std::vector<ld> m; ld unresolved = 0; u64 seqs = 0; };
// all engine value sequences of a range-R engine, to a depth; Draw(engine) -> outcome
template<class Draw> void enumerate(u64 R, int depth, Draw&& draw, Mass& out) {
  Src s; s.mode = 0; auto eng = make<u64>(s, 0, R - 1);
  std::function<void(std::vector<u64>&, ld)> rec = [&](std::vector<u64>& pre, ld mass) {
    s.script = pre; s.pos = 0; s.drawn = 0; s.limit = pre.size(); s.used.clear(); ++out.seqs; u64 r;
    try { r = draw(eng); }
    catch (Src::Over&) { if ((int)pre.size() >= depth) { out.unresolved += mass; return; } for (u64 v = 0; v < R; ++v) { pre.push_back(v); rec(pre, mass / R); pre.pop_back(); } return; }
    if (r >= out.m.size()) { H::viol("range", H::cat("outcome ", r, " of ", (u64)out.m.size())); return; } out.m[r] += mass;
  };
  std::vector<u64> pre; rec(pre, 1);
}
template<class I> std::vector<std::vector<W>> vectors(H::Rng& g, bool tiny) {
  std::vector<std::vector<W>> r = { {1}, {1, 1}, {1, 0}, {0, 1}, {1, 3}, {3, 1}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {1, 2, 3}, {3, 2, 1}, {2, 2, 2}, {5, 0, 5}, {1, 4, 5}, {7, 1, 1, 1}, {1, 1, 1, 7}, {0, 3, 0, 5, 0}, {1, 2, 3, 4, 5, 6}, {9, 0, 0, 0, 0, 1}, {1, 1, 0, 1, 1, 0, 1}, {2, 3, 5, 7, 11, 13}, {0, 0, 0, 0, 0, 0, 0, 4} };
  for (int k = 0; k < (int)H::n(25, 120); ++k) { std::vector<W> v(1 + g.below(tiny ? 7 : 12)); u64 mx = 1 + g.below(tiny ? 9 : 90); for (W& x : v) x = g.below(4) ? (W)g.below(mx + 1) : (W)0; if (total(v) == 0) v[g.below(v.size())] = 1; if (REALW && !tiny) for (W& x : v) x *= (W)g.unit(); if (total(v) == 0) continue; r.push_back(v); }
  return r;
}
// ---- every way to construct
template<class I> void routes(const std::vector<W>& w) {
  typedef br::discrete_distribution<I, W> D; typedef typename D::param_type P; const std::string n = label<I>(w);
  D a(w.begin(), w.end()); std::list<W> l(w.begin(), w.end()); std::forward_list<W> fl(w.begin(), w.end());
  auto pr = a.probabilities(); CHECK_RET(pr.size() == std::max<std::size_t>(1, w.size()), "probabilities", n, ": ", (u64)pr.size(), " probabilities");
  std::vector<W> ref = w; if (ref.empty()) ref.push_back(1); ld sum = total(ref); const ld eps = std::is_floating_point<W>::value ? (ld)std::numeric_limits<W>::epsilon() : 0;
  CHECK(a.min() == 0 && (u64)a.max() == ref.size() - 1, "bounds", n, ": reports [", (ld)a.min(), ",", (ld)a.max(), "]");
  auto exact = [&](const std::vector<W>& p, const char* what) {
    CHECK_RET(p.size() == ref.size(), H::cat("probabilities/", what), n, ": ", (u64)p.size(), " values");
    for (std::size_t k = 0; k < p.size(); ++k) {
      if (!REALW) { if (p[k] != ref[k]) { H::viol(H::cat("probabilities/", what), H::cat(n, ": weight ", (u64)k, " is reported as ", (ld)p[k])); return; } }
      else { ld e = (ld)ref[k] / sum; if (e < (ld)std::numeric_limits<W>::min() * (ref[k] != 0)) continue; if ((ref[k] == 0) != (p[k] == 0) || std::fabs((ld)p[k] - e) > e * eps * (8 + 4 * (ld)p.size()) + (e * p.size() > 0.45L ? 4 * eps * p.size() : 0)) { H::viol(H::cat("probabilities/", what), H::cat(n, ": probability ", (u64)k, " is reported as ", (ld)p[k], ", not ", e)); return; } }
    } H::eval(p.size()); };
  exact(pr, "iterators"); P pa(w.begin(), w.end()), pb(w), pc = a.param(); exact(pa.probabilities(), "param iterators"); exact(pb.probabilities(), "param range"); exact(pc.probabilities(), "param()");
  CHECK(pa == pb && !(pa != pb), "param", n, ": parameters from iterators and from a range differ");
  std::vector<D> all; all.push_back(D(l.begin(), l.end())); all.push_back(D(w)); all.push_back(D(fl.begin(), fl.end())); { InIt b, e; b.v = &w; b.p = std::make_shared<std::size_t>(0); e.v = 0; all.push_back(D(b, e)); } all.push_back(D(l)); { D d; d = a; all.push_back(d); }
  for (std::size_t k = 0; k < all.size(); ++k) CHECK(all[k] == a && !(all[k] != a), H::cat("construct/", (u64)k), n, ": construction route ", (u64)k, " gives another distribution");
  std::vector<D> more; more.push_back(D(pa)); { D d; d.param(pa); more.push_back(d); } { D d(std::vector<W>(5, (W)1)); d.param(pb); more.push_back(d); } more.push_back(D(pc));
  for (std::size_t k = 0; k < more.size(); ++k) { exact(more[k].probabilities(), "from parameters"); if (!REALW) CHECK(more[k] == a, H::cat("construct/param", (u64)k), n, ": construction from parameters gives another distribution"); }
  // a single list entry, a function
  { std::size_t i = 0; auto f = [&](double) { return ref[i++]; }; D d(ref.size(), 0.0, (double)ref.size(), f); CHECK(d == D(ref), "construct/function", n, ": construction from a function gives another distribution"); i = 0; P p(ref.size(), 0.0, (double)ref.size(), f); CHECK(p == P(ref), "construct/param function", n, ": parameters from a function differ"); }
  H::seen(n); H::event("weight vectors");
}
template<class I> void lists() {
  typedef br::discrete_distribution<I, W> D; typedef typename D::param_type P; std::vector<W> v = { 1, 4, 5 }, none;
  CHECK((D{ (W)1, (W)4, (W)5 }) == D(v), "construct/list", "initializer list gives another distribution"); CHECK((P{ (W)1, (W)4, (W)5 }) == P(v), "construct/param list", "initializer list gives other parameters");
  D def, e1(none.begin(), none.end()), e2(none); CHECK(def == e1 && def == e2, "construct/empty", "an empty range is not the default distribution"); P pd, p1(none.begin(), none.end()), p2(none); CHECK(pd == p1 && pd == p2, "construct/empty param", "empty parameters are not the default ones: ", (u64)p1.probabilities().size(), " probabilities");
  CHECK(def.probabilities() == std::vector<W>(1, (W)1) && def.max() == 0, "construct/default", "default distribution"); CHECK(D(pd) == def && def.param() == pd, "construct/default param", "default parameters");
  std::vector<double> at; auto f = [&](double x) { at.push_back(x); return (W)1; }; D z((std::size_t)0, 2.0, 3.0, f); CHECK(z == def && at.size() == 1, "construct/function", "nw = 0"); at.clear(); D d((std::size_t)4, 2.0, 6.0, f); CHECK(at.size() == 4 && at[0] == 2.5 && at[1] == 3.5 && at[2] == 4.5 && at[3] == 5.5, "construct/function", "the function was called at ", H::str(at)); at.clear(); P p((std::size_t)4, 2.0, 6.0, f); CHECK(at.size() == 4 && at[0] == 2.5 && at[3] == 5.5, "construct/param function", "the function was called at ", H::str(at));
}
// ---- exhaustive masses
template<class I> void masses() {
  typedef br::discrete_distribution<I, W> D; typedef typename D::param_type P; H::Rng g = H::rng(); 
  for (auto& w : vectors<I>(g, true)) {
    const std::string n = label<I>(w); D d(w.begin(), w.end()); P p(w.begin(), w.end()); ld sum = total(w); u64 nn = w.size();
    for (int call = 0; call < 2; ++call) {
      std::vector<std::pair<u64,int>> es;
      if (!REALW) { u64 S = (u64)itotal(w), a = S / nn + 1; u64 l = call ? S : nn / gcd(nn, a) * a; if (l < 2) l = 2; if (l <= 600) es.push_back({ l, call ? 1 + (l < 300) : 2 }); es.push_back({ 16, 4 }); es.push_back({ 6, 6 }); es.push_back({ 251, 2 }); }
      else { u64 k = nn * (900 / nn); es.push_back({ k, 2 }); es.push_back({ 256, 2 }); }
      for (auto& e : es) {
        Mass m; m.m.resize(nn); if (call) { D o; enumerate(e.first, e.second, [&](auto& eng) { return (u64)o(eng, p); }, m); } else enumerate(e.first, e.second, [&](auto& eng) { return (u64)d(eng); }, m);
        ld tol = REALW ? 2.5L / e.first : 1e-12L;
        for (u64 k = 0; k < nn; ++k) { ld ex = (ld)w[k] / sum; if (m.m[k] > ex + tol || m.m[k] + m.unresolved < ex - tol || (w[k] == 0 && m.m[k] > 0)) H::viol(H::cat("mass", call ? "/parameters per call" : ""), H::cat(n, ": outcome ", k, " has probability between ", m.m[k], " and ", m.m[k] + m.unresolved, ", not ", ex, ", over all sequences of ", e.second, " values of an engine of ", e.first, " values")); }
        H::eval(m.seqs); H::event("engine sequences", m.seqs); H::event("outcome masses", nn); H::seen(H::cat(n, call, e.first)); if (m.unresolved < 0.02) H::event("distributions with less than 2% unresolved mass");
        H::sample(H::cat(n, ", engine of ", e.first, " values, ", m.seqs, " sequences, unresolved mass ", m.unresolved));
      } } }
}
// ---- statistics for larger vectors
template<class I> void counts(const std::vector<W>& w, u64 N, const char* what) {
  typedef br::discrete_distribution<I, W> D; typedef typename D::param_type P; const std::string n = H::cat(what, " ", label<I>(w)); D d(w.begin(), w.end()), o; P p(w.begin(), w.end()); ld sum = total(w); H::Rng g = H::rng(w.size());
  Src s; s.mode = 1; s.rng = &g; auto e64 = make<u64>(s, 0, ~0ull); auto e31 = make<std::int32_t>(s, 1, 2147483646); auto ed = make<double>(s, 0, 1);
  for (int k = 0; k < 4; ++k) {
    u64 m = N; if (k == 3) m = std::max<u64>(200, std::min<u64>(N, 20000000 / (w.size() + 1) / (H::quick() ? 4 : 1))); std::vector<u64> c(w.size()); bool bad = false;
    for (u64 i = 0; i < m; ++i) { u64 r = k == 0 ? (u64)d(e64) : k == 1 ? (u64)d(e31) : k == 2 ? (u64)d(ed) : (u64)o(e64, p); if (r >= w.size()) { H::viol("range", H::cat(n, ": outcome ", r)); return; } ++c[r]; if (w[r] == 0 && !bad) { bad = true; H::viol(H::cat("zero", k == 3 ? "/parameters per call" : ""), H::cat(n, ": outcome ", r, " has weight zero and was drawn")); } }
    // cells: single outcomes with an expected count of 10 or more, the rest together
    double x = 0, df = -1, re = 0, ro = 0; for (std::size_t j = 0; j < w.size(); ++j) { double e = (double)((ld)w[j] / sum) * m; if (e >= 10) { double dd = std::max(0.0, std::fabs(c[j] - e) - e * (sizeof(W) == 4 && REALW ? 1e-6 * w.size() : 1e-9 * w.size()) - (k == 1 ? m * 5e-10 : 0)); x += dd * dd / e; ++df; } else { re += e; ro += c[j]; } }
    if (re > 1e-9) { double den = std::max(re, 1.0); x += (ro - re) * (ro - re) / den; ++df; } else if (ro > 0) { H::viol("zero", H::cat(n, ": negligible outcomes were drawn ", ro, " times")); }
    if (df > 0) CHECK(zchi(x, df) < 7.5, H::cat("counts", k == 3 ? "/parameters per call" : ""), n, ": counts of ", m, " draws do not fit the weights, chi-square ", x, " on ", df, " degrees of freedom"); H::eval(m); H::event("draws", m); H::seen(H::cat(n, k));
  }
}
// every bin of the table, with the smallest and the largest second value
template<class I> void corners(const std::vector<W>& w, const char* what) {
  typedef br::discrete_distribution<I, W> D; const std::string n = H::cat(what, " ", label<I>(w)); D d(w.begin(), w.end()), o; typename D::param_type p(w.begin(), w.end()); u64 nn = w.size();
  H::Rng g = H::rng(); Src s; s.rng = &g; s.mode = 1; for (u64 R : { nn, nn * 1024, (u64)0 }) { if (R == 1) continue; auto e = make<u64>(s, 0, R - 1); u64 step = R ? R / nn : ~0ull / nn;
    for (u64 b = 0; b < nn; ++b) for (int k = 0; k < 4; ++k) { u64 top = R - 1; s.script = { b * step + (k == 3 ? step / 2 : 0), k == 0 ? 0 : k == 1 ? top : k == 2 ? top / 2 : top, k == 3 ? top : 0, top, top, top }; s.pos = 0; s.drawn = 0; u64 r = (u64)d(e); if (r >= nn || w[r] == 0) { H::viol("zero", H::cat(n, ": outcome ", r, " has weight zero and was drawn from bin ", b)); return; } }
    H::eval(nn * 4); H::event("table bins", nn);
    for (int k = 0; k < 6; ++k) { u64 top = R - 1; s.script = std::vector<u64>(8, k == 0 ? 0 : k == 1 ? top : k == 2 ? top - 1 : k == 3 ? 1 % (R ? R : 2) : k == 4 ? top / 2 : top / 3); s.pos = 0; s.drawn = 0; u64 r = (u64)o(e, p); if (r >= nn || w[r] == 0) { H::viol("zero/parameters per call", H::cat(n, ": outcome ", r, " has weight zero and was drawn")); return; } } }
}
template<class I> std::vector<std::pair<const char*, std::vector<W>>> large(H::Rng& g) {
  std::vector<std::pair<const char*, std::vector<W>>> r; const u64 cap = sizeof(I) == 1 ? (std::is_signed<I>::value ? 128 : 256) : sizeof(I) == 2 ? 30000 : H::n(30000, 300000);
  for (u64 n : { 2, 3, 5, 17, 100, 127, 128, 255, 256, 1000, 4096, 30000, 300000 }) { if (n > cap) continue; const u64 top = REALW ? 100 : std::min<u64>((u64)(ld)std::numeric_limits<W>::max(), 1000000);
    { std::vector<W> v(n, (W)1); r.push_back({ "equal", v }); } { std::vector<W> v(n); for (u64 k = 0; k < n; ++k) v[k] = (W)(k < n / 2 ? 1 + k % 5 : 0); r.push_back({ "zeros last", v }); } { std::vector<W> v(n); for (u64 k = 0; k < n; ++k) v[k] = (W)(k >= n / 2 ? 1 + k % 5 : 0); r.push_back({ "zeros first", v }); }
    { std::vector<W> v(n); for (u64 k = 0; k < n; ++k) v[k] = (W)(k % 3 ? 0 : 1 + k % 7); r.push_back({ "zeros between", v }); } { std::vector<W> v(n); for (W& x : v) x = (W)(g.below(3) ? (REALW ? (W)(g.unit() * 10) : (W)g.below(top + 1)) : (W)0); v[g.below(n)] = 1; r.push_back({ "random", v }); }
    { std::vector<W> v(n, (W)0); v[g.below(n)] = (W)top; r.push_back({ "one", v }); } { std::vector<W> v(n, (W)1); v[g.below(n)] = (W)top; v.back() = 0; r.push_back({ "one heavy", v }); }
    if (REALW) { std::vector<W> v(n); for (u64 k = 0; k < n; ++k) v[k] = k % 5 == 4 ? 0 : (W)std::pow(10.0, (double)g.range(-15, 15)); r.push_back({ "wide", v }); for (W& x : v) x = (W)(0.1 * (1 + g.below(3))); v.back() = 0; r.push_back({ "tenths", v }); for (u64 k = 0; k < n; ++k) v[k] = (W)(k % 2 ? 1.0 / 3 : 0); r.push_back({ "thirds", v }); }
    else { u64 big = (u64)(ld)std::numeric_limits<W>::max(); { std::vector<W> v(n, (W)big); r.push_back({ "largest", v }); v[0] = 0; r.push_back({ "largest but one", v }); } { std::vector<W> v(n); for (u64 k = 0; k < n; ++k) v[k] = (W)(k % 2 ? big : 0); r.push_back({ "largest and zero", v }); } { std::vector<W> v(n); for (W& x : v) x = (W)(big - g.below(std::min<u64>(big, 5))); r.push_back({ "near largest", v }); } { std::vector<W> v(n); for (W& x : v) x = (W)g.below(big); v[0] = 1; r.push_back({ "random full range", v }); } }
  }
  if (REALW) { W m = std::numeric_limits<W>::max(), t = std::numeric_limits<W>::min(); r.push_back({ "huge", { m / 4, m / 2, 0, m / 8 } }); r.push_back({ "tiny", { t * 4, t * 2, 0, t * 64 } }); r.push_back({ "extremes", { m / 4, t, 0, 1, m / 8 } }); r.push_back({ "last tiny", { 1, 2, 3, t } }); r.push_back({ "first tiny", { t, 3, 2, 1 } }); r.push_back({ "ulps", { 1, std::nextafter((W)1, (W)2), std::nextafter((W)1, (W)0), 1, 0 } }); }
  return r;
}
template<class I> void all(const std::string& nm) {
  H::scens().push_back({ nm + "/construct", [] { H::Rng g = H::rng(); lists<I>(); for (auto& w : vectors<I>(g, false)) routes<I>(w); for (auto& p : large<I>(g)) routes<I>(p.second); H::sample("distributions and parameters built from iterators, lists, ranges, single pass iterators, functions and parameters"); } });
  H::scens().push_back({ nm + "/masses", [] { masses<I>(); } });
  H::scens().push_back({ nm + "/counts", [] { H::Rng g = H::rng(); for (auto& p : large<I>(g)) { counts<I>(p.second, H::n(40000, 400000), p.first); corners<I>(p.second, p.first); } for (auto& w : vectors<I>(g, false)) { counts<I>(w, H::n(20000, 200000), "small"); corners<I>(w, "small"); } H::sample("outcome counts against weights; every bin of the table entered with extreme second values"); } });
}
static bool reg = [] { all<int>("int"); if (sizeof(W) == 1 || sizeof(W) == 8) { all<std::int8_t>("int8"); all<std::uint8_t>("uint8"); all<u64>("uint64"); } else all<std::int16_t>("int16"); return true; }();

#ifdef VERIF_REALW
// ---- piecewise distributions and the hyperexponential distribution
struct Shape { std::vector<W> x, w; };
static std::vector<Shape> shapes(H::Rng& g, bool linear) {
  std::vector<Shape> r = { { {0, 1}, {2} }, { {0, 1, 2}, {1, 0} }, { {0, 1, 2}, {0, 1} }, { {-3, -1, 0, 2}, {0, 1, 0} }, { {0, 1, 2, 3}, {1, 0, 3} }, { {1, 1.5, 4, 100}, {0, 0, 7} }, { {-1, 0, 1e-3, 5, 6}, {3, 0, 0, 1} } };
  if (linear) for (auto& s : r) { if (s.w.size() == 1) s.w.push_back(1); else s.w.push_back(s.w[0] ? (W)0 : (W)2); }
  for (int k = 0; k < (int)H::n(30, 200); ++k) { Shape s; int n = 1 + g.below(12); W x = (W)(g.range(-50, 50)); s.x.push_back(x); for (int i = 0; i < n; ++i) { x += (W)(0.25 * (1 + g.below(20))); s.x.push_back(x); } for (int i = 0; i < n + linear; ++i) s.w.push_back(g.below(3) ? (W)(1 + g.below(9)) / (W)(1 + g.below(5)) : (W)0); 
    bool ok = false; for (W v : s.w) ok = ok || v > 0; if (!ok) s.w[g.below(s.w.size())] = 1; r.push_back(s); }
  return r;
}
static bool close(ld a, ld b, int n) { return std::fabs(a - b) <= std::fabs(b) * (ld)std::numeric_limits<W>::epsilon() * (16 + 6 * n) && (a == 0) == (b == 0); }
template<class D, bool LIN> void piecewise(const std::string& nm) {
  typedef typename D::param_type P; H::Rng g = H::rng(); H::Rng r2 = H::rng(7); Src s; s.mode = 1; s.rng = &r2; auto e64 = make<u64>(s, 0, ~0ull); auto ed = make<double>(s, 0, 1);
  for (auto& sh : shapes(g, LIN)) {
    const std::string n = H::cat(nm, " ", H::str(sh.x), " ", H::str(sh.w)); std::size_t m = sh.x.size() - 1; std::vector<ld> area(m), dens; ld sum = 0;
    for (std::size_t k = 0; k < m; ++k) { area[k] = ((ld)sh.x[k + 1] - sh.x[k]) * (LIN ? ((ld)sh.w[k] + sh.w[k + 1]) / 2 : 1); if (!LIN) area[k] = (ld)sh.w[k]; sum += area[k]; }
    for (std::size_t k = 0; k < sh.w.size(); ++k) dens.push_back(LIN ? (ld)sh.w[k] / sum : (ld)sh.w[k] / sum / ((ld)sh.x[k + 1] - sh.x[k]));
    auto report = [&](const auto& o, const char* what) { CHECK(o.intervals() == sh.x, H::cat("intervals/", what), n, ": wrong intervals reported"); auto d = o.densities(); CHECK_RET(d.size() == dens.size(), H::cat("densities/", what), n, ": ", (u64)d.size(), " densities"); for (std::size_t k = 0; k < d.size(); ++k) CHECK(close(d[k], dens[k], m), H::cat("densities/", what), n, ": density ", (u64)k, " is ", (ld)d[k], ", not ", dens[k]); };
    std::vector<W> extra = sh.w; extra.push_back(77); D d(sh.x.begin(), sh.x.end(), sh.w.begin()), dr(sh.x, sh.w), dx(sh.x.begin(), sh.x.end(), extra.begin()); P p(sh.x.begin(), sh.x.end(), sh.w.begin()), pr(sh.x, sh.w), px(sh.x.begin(), sh.x.end(), extra.begin()); D dp(p), ds; ds.param(p); D dl({ 0, 1, 5 }, [](W) { return (W)1; }); dl.param(p); 
    for (auto* o : { &d, &dr, &dx, &dp, &ds, &dl }) { report(*o, "distribution"); CHECK(*o == d, "construct", n, ": construction routes differ"); CHECK(o->min() == sh.x.front() && o->max() == sh.x.back(), "bounds", n, ": reports [", (ld)o->min(), ",", (ld)o->max(), "]"); } for (auto* o : { &p, &pr, &px }) { report(*o, "parameters"); CHECK(*o == p, "construct", n, ": parameters differ"); } report(d.param(), "param()"); 
    { std::size_t k = 0; std::vector<W> at; auto f = [&](W x) { at.push_back(x); return sh.w[k++ % sh.w.size()]; }; if (sh.x.size() == 4) { D a({ sh.x[0], sh.x[1], sh.x[2], sh.x[3] }, f); CHECK(a == d, "construct/function", n, ": list and function give another distribution"); bool ok = at.size() == sh.w.size(); for (std::size_t i = 0; ok && i < at.size(); ++i) ok = LIN ? at[i] == sh.x[i] : at[i] == (sh.x[i] + sh.x[i + 1]) / 2; CHECK(ok, "construct/function", n, ": function called at ", H::str(at)); k = 0; P b({ sh.x[0], sh.x[1], sh.x[2], sh.x[3] }, f); CHECK(b == p, "construct/function", n, ": list and function give other parameters"); } }
    const u64 N = H::n(30000, 300000);
    for (int call = 0; call < 3; ++call) { std::vector<double> c(m * 4); u64 nn = call == 2 ? N / 10 : N; bool bad = false; for (u64 i = 0; i < nn; ++i) { W v = call == 0 ? d(e64) : call == 1 ? d(ed) : ds(e64, p); std::size_t k = std::upper_bound(sh.x.begin(), sh.x.end(), v) - sh.x.begin(); if (v == sh.x.back() && k == sh.x.size() && LIN) --k; if (k == 0 || k >= sh.x.size()) { H::viol("outside", H::cat(n, ": value ", (ld)v)); return; } --k;
        bool zero = LIN ? sh.w[k] == 0 && sh.w[k + 1] == 0 && !(v == sh.x[k]) : sh.w[k] == 0; if (zero && !bad) { bad = true; H::viol("zero", H::cat(n, ": value ", (ld)v, " in an interval of weight zero")); }
        ld t = ((ld)v - sh.x[k]) / ((ld)sh.x[k + 1] - sh.x[k]); c[k * 4 + std::min(3, (int)(t * 4))]++; }
      double x = 0, df = -1; for (std::size_t k = 0; k < m; ++k) for (int q = 0; q < 4; ++q) { ld f = 0.25L; if (LIN) { ld a = sh.w[k], b = sh.w[k + 1]; ld t = (q + 0.5L) / 4; f = (a + b) > 0 ? (a + (b - a) * t) * 2 / (a + b) / 4 : 0.25L; } double e = (double)(area[k] / sum * f) * nn; if (e > 0) { x += (c[k * 4 + q] - e) * (c[k * 4 + q] - e) / std::max(e, 1.0); ++df; } }
      if (df > 0) CHECK(zchi(x, df) < 8, H::cat("counts", call == 2 ? "/parameters per call" : ""), n, ": counts do not fit the densities, chi-square ", x, " on ", df, " degrees of freedom"); H::eval(nn); H::event("draws", nn); }
    H::seen(n); H::sample(n);
  }
  // functions, degenerate input
  std::vector<W> none, one = { 3 }, w1 = { 5, 6 }; D def; P pdef; D e1(none.begin(), none.end(), w1.begin()), e2(one.begin(), one.end(), w1.begin()), e3(one, w1), e4(none, none); P q1(none.begin(), none.end(), w1.begin()), q2(one.begin(), one.end(), w1.begin()), q3(one, w1), q4(none, none);
  for (auto* o : { &e1, &e2, &e3, &e4 }) CHECK(*o == def && o->min() == 0 && o->max() == 1, "construct/default", nm, ": fewer than two boundaries do not give the default distribution"); for (auto* o : { &q1, &q2, &q3, &q4 }) CHECK(*o == pdef && D(*o) == def, "construct/default", nm, ": fewer than two boundaries do not give the default parameters");
  { D l0({ (W)3 }, [](W) { return (W)2; }); P l1({ (W)3 }, [](W) { return (W)2; }); CHECK(l0 == def && l1 == pdef, "construct/default", nm, ": list of one boundary"); }
  for (std::size_t nw : { 0, 1, 2, 3, 5, 7, 10, 33 }) for (auto xx : { std::make_pair((W)0, (W)1), std::make_pair((W)-2, (W)3.5), std::make_pair((W)0.1, (W)0.7) }) {
    std::vector<ld> at, at2; auto f = [&](auto x) { at.push_back(x); return (W)(1 + x * x); }; auto f2 = [&](auto x) { at2.push_back(x); return (W)(1 + x * x); }; D a(nw, xx.first, xx.second, f); P b(nw, xx.first, xx.second, f2); std::size_t n = nw ? nw : 1; auto iv = a.intervals(), iv2 = b.intervals();
    CHECK(iv == iv2, "function intervals", nm, ": ", (u64)nw, " intervals of [", (ld)xx.first, ",", (ld)xx.second, "]: the distribution and its parameter type use different boundaries"); CHECK(iv.size() == n + 1 && iv.front() == xx.first && iv.back() == xx.second, "function intervals", nm, ": ends");
    for (std::size_t k = 0; k <= n && k < iv.size(); ++k) { ld e = xx.first + ((ld)xx.second - xx.first) * k / n; CHECK(std::fabs(iv[k] - e) <= 8 * (ld)std::numeric_limits<W>::epsilon() * 4, "function intervals", nm, ": boundary ", (u64)k, " is ", (ld)iv[k], ", not ", e); }
    CHECK(at.size() == (LIN ? n + 1 : n) && at2.size() == at.size(), "function calls", nm, ": ", (u64)at.size(), " and ", (u64)at2.size(), " calls"); for (std::size_t k = 0; k < at.size() && k < at2.size(); ++k) { ld e = xx.first + ((ld)xx.second - xx.first) * (k + (LIN ? 0 : 0.5L)) / n; CHECK(std::fabs(at[k] - e) <= 1e-6L && std::fabs(at2[k] - e) <= 1e-6L, "function calls", nm, ": called at ", at[k], " and ", at2[k], ", not ", e); } 
    CHECK(D(b) == a, "construct/function param", nm, ": a distribution from function parameters differs from the one from the function, ", (u64)nw, " intervals of [", (ld)xx.first, ",", (ld)xx.second, "]"); }
}
static void hyper() {
  typedef br::hyperexponential_distribution<W> D; typedef typename D::param_type P; H::Rng g = H::rng(), r2 = H::rng(3); Src s; s.mode = 1; s.rng = &r2; auto e64 = make<u64>(s, 0, ~0ull); auto ed = make<double>(s, 0, 1); const int step = sizeof(W) == 4 ? 11 : 40;
  std::vector<std::vector<W>> ps = { {1}, {1, 1}, {1, 0}, {0, 1}, {0.1f, 0.2f, 0.7f, 0}, {3, 3, 1}, {1, 0, 0}, {0, 0, 5}, {1, 2, 3, 0}, {0.7f, 0.1f, 0.1f, 0.1f, 0}, {1e-12f, 1}, {1, 1e-12f} };
  for (int k = 0; k < (int)H::n(40, 300); ++k) { std::vector<W> v(1 + g.below(6)); for (W& x : v) x = g.below(3) ? (W)(g.unit() * 5) : (W)0; v[g.below(v.size())] += (W)0.5; ps.push_back(v); }
  for (auto& w : ps) {
    const std::size_t m = w.size(); const std::string n = H::cat("hyperexponential ", H::str(w)); ld sum = total(w); std::vector<W> r; for (std::size_t k = 0; k < m; ++k) r.push_back((W)std::pow(10.0L, step * ((int)k - (int)m / 2))); std::vector<W> rr = r;
    D d(w.begin(), w.end(), r.begin(), r.end()), dr(w, r); P p(w.begin(), w.end(), r.begin(), r.end()), pr(w, r); D dp(p), ds; ds.param(p); D dv = m == 2 ? D({ w[0], w[1] }, { r[0], r[1] }) : d; P pv = m == 2 ? P({ w[0], w[1] }, { r[0], r[1] }) : p;
    auto report = [&](const auto& o, const char* what) { CHECK(o.rates() == r, H::cat("rates/", what), n, ": wrong rates"); auto q = o.probabilities(); CHECK_RET(q.size() == m, H::cat("probabilities/", what), n, ": number of probabilities"); for (std::size_t k = 0; k < m; ++k) CHECK(close(q[k], (ld)w[k] / sum, m), H::cat("probabilities/", what), n, ": probability ", (u64)k, " is ", (ld)q[k], ", not ", (ld)w[k] / sum); };
    for (auto* o : { &d, &dr, &dp, &ds, &dv }) { report(*o, "distribution"); CHECK(o->num_phases() == m, "phases", n); } for (auto* o : { &p, &pr, &pv }) report(*o, "parameters"); report(d.param(), "param()"); CHECK(d == dr && p == pr && d == dv && p == pv, "construct", n, ": construction routes differ");
    for (int call = 0; call < 3; ++call) { std::vector<double> c(m); u64 N = H::n(30000, 300000) / (call == 2 ? 5 : 1); bool bad = false; for (u64 i = 0; i < N; ++i) { W v = call == 0 ? d(e64) : call == 1 ? d(ed) : ds(e64, p); if (!(v >= 0)) { H::viol("outside", H::cat(n, ": value ", (ld)v)); return; } if (v == 0) continue; int k = (int)std::lround(-std::log10((long double)v) / step) + (int)m / 2; k = std::max(0, std::min((int)m - 1, k)); if (w[k] == 0 && std::fabs(std::log10((long double)v) + step * (k - (int)m / 2)) < 3) { if (!bad) H::viol("zero", H::cat(n, ": a value of phase ", k, " of weight zero: ", (ld)v)); bad = true; } c[k]++; }
      double x = 0, df = -1; for (std::size_t k = 0; k < m; ++k) { double e = (double)((ld)w[k] / sum) * N; if (e > 0) { x += (c[k] - e) * (c[k] - e) / std::max(e, 1.0); ++df; } } if (df > 0) CHECK(zchi(x, df) < 8, H::cat("counts", call == 2 ? "/parameters per call" : ""), n, ": phases do not fit their probabilities, chi-square ", x, " on ", df); H::eval(N); H::event("draws", N); }
    if (m > 1) { D a(rr), b(rr.begin(), rr.end()); P c(rr), e(rr.begin(), rr.end()); std::vector<W> ones(m, (W)1); D u(ones, rr); P v(ones, rr); CHECK(a == u && b == u && c == v && e == v, "construct/rates only", n, ": rates alone do not give equal probabilities"); }
    H::seen(n); H::sample(n);
  }
  { D a({ (W)2, (W)5 }), u(std::vector<W>(2, 1), std::vector<W>{ 2, 5 }); CHECK(a == u, "construct/rates only", "list of rates"); P c({ (W)2, (W)5 }); CHECK(D(c) == u, "construct/rates only", "list of rates"); D def; CHECK(def.num_phases() == 1 && def.rates()[0] == 1 && def.probabilities()[0] == 1 && D(P()) == def && def.param() == P(), "construct/default", "default"); }
}
static bool reg2 = [] { H::scens().push_back({ "piecewise_constant", [] { piecewise<br::piecewise_constant_distribution<W, W>, false>("piecewise_constant"); } }); H::scens().push_back({ "piecewise_linear", [] { piecewise<br::piecewise_linear_distribution<W>, true>("piecewise_linear"); } }); H::scens().push_back({ "hyperexponential", hyper }); return true; }();
#endif
