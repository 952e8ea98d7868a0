// P19 parameters, P20 save and restore.  VERIF_PROP, VERIF_T real type,
// VERIF_FAM 1-3 as in dist.cpp, 4 the remaining distributions.
#define VERIF_NO_CDF
#include "dists.hpp"
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/uniform_01.hpp>
#include <iomanip>
typedef VERIF_T T;
ACC(br::uniform_on_sphere, (ld)o.dim())
template<> struct Acc<boost::uniform_int<int>> : Acc<br::uniform_int_distribution<int>> {}; template<> struct Acc<boost::uniform_int<u64>> : Acc<br::uniform_int_distribution<u64>> {}; template<> struct Acc<boost::uniform_real<T>> : Acc<br::uniform_real_distribution<T>> {};
template<class D> struct Vec { static const bool value = false, lossy = false; };
template<class I, class W> struct Vec<br::discrete_distribution<I, W>> { static const bool value = true, lossy = !std::is_integral<W>::value; };
template<class R, class W> struct Vec<br::piecewise_constant_distribution<R, W>> { static const bool value = true, lossy = !std::is_integral<W>::value; };
template<class... A> struct Vec<br::piecewise_linear_distribution<A...>> { static const bool value = true, lossy = false; };
template<class... A> struct Vec<br::hyperexponential_distribution<A...>> { static const bool value = true, lossy = true; };
template<class F> void family(F&& f) {
#if VERIF_FAM == 1
  cont1<T>(f);
#elif VERIF_FAM == 2
  cont2<T>(f);
#elif VERIF_FAM == 3
  intweights<T>(f); counting<int, T>(f); discrete<int, T>(f); if constexpr (sizeof(T) == 8) { counting<int64_t, T>(f); discrete<int64_t, T>(f); } if constexpr (sizeof(T) == 4) { counting<int16_t, T>(f); discrete<int16_t, T>(f); }
#else
  for (int d : { 0, 1, 2, 3, 4, 7, 50 }) { CASE(sphere, -1, 1, (ld)d) f(br::uniform_on_sphere<T>(d), i); }
  for (std::pair<T, T> p : { std::pair<T, T>(0, 1), std::pair<T, T>(-2, 3.5), std::pair<T, T>((T)0.1, (T)0.7) }) { CASE(uniform_real_old, p.first, p.second, (ld)p.first, (ld)p.second) f(boost::uniform_real<T>(p.first, p.second), i); }
  auto ints = [&](auto tag) { typedef decltype(tag) I; typedef std::numeric_limits<I> L; const std::pair<I, I> ps[] = { { 0, 9 }, { L::min(), L::max() }, { L::min(), 0 }, { 1, 1 }, { 0, 100 }, { L::max() / 3, L::max() } };
    for (auto& p : ps) { { CASE(uniform_int, p.first, p.second, (ld)p.first, (ld)p.second) i.name += tname<I>(); f(br::uniform_int_distribution<I>(p.first, p.second), i); } if ((u64)p.second - (u64)p.first < 200) { CASE(uniform_smallint, p.first, p.second, (ld)p.first, (ld)p.second) i.name += tname<I>(); f(br::uniform_smallint<I>(p.first, p.second), i); } } };
  ints((int)0); ints((unsigned)0); ints((short)0); ints((unsigned short)0); ints((long)0); ints((unsigned long)0); ints((long long)0);
  for (auto p : { std::make_pair(0, 9), std::make_pair(-5, 1000000), std::make_pair(INT32_MIN, INT32_MAX) }) { CASE(uniform_int_old, p.first, p.second, (ld)p.first, (ld)p.second) f(boost::uniform_int<int>(p.first, p.second), i); } for (auto p : { std::make_pair((u64)0, (u64)9), std::make_pair((u64)7, (u64)~0ull) }) { CASE(uniform_int_old64, p.first, p.second, (ld)p.first, (ld)p.second) f(boost::uniform_int<u64>(p.first, p.second), i); }
#endif
}
// engines that feed the distributions
struct E8 { typedef std::uint8_t result_type; u64 s; static constexpr result_type min() { return 0; } static constexpr result_type max() { return 255; } result_type operator()() { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 56; } };
template<class F> void feeds(u64 seed, F&& f) { f(br::mt19937((u32)seed), "mt19937"); f(E8{ seed }, "engine of 8 bits"); f(br::mt19937_64(seed), "mt19937_64"); f(br::minstd_rand((u32)seed % 2147483646 + 1), "minstd_rand"); f(br::lagged_fibonacci607((u32)seed), "lagged_fibonacci607"); }
template<class D, class E> auto run(D& d, E& e, int n) { std::vector<typename D::result_type> r; for (int k = 0; k < n; ++k) r.push_back(d(e)); return r; }
template<class D, class E, class P> auto runp(D& d, E& e, const P& p, int n) { std::vector<typename D::result_type> r; for (int k = 0; k < n; ++k) r.push_back(d(e, p)); return r; }
template<class V> bool eq(const V& a, const V& b) { if (a.size() != b.size()) return false; for (std::size_t k = 0; k < a.size(); ++k) if (!(a[k] == b[k]) && (a[k] == a[k] || b[k] == b[k])) return false; return true; }
template<class V> std::string show(const V& a, const V& b) { for (std::size_t k = 0; k < a.size() && k < b.size(); ++k) if (!(a[k] == b[k])) { if constexpr (std::is_arithmetic<typename V::value_type>::value) return H::cat("value ", (u64)k, " is ", (ld)b[k], ", not ", (ld)a[k]); else return H::cat("value ", (u64)k); } return "length"; }
// same parameters up to round-off?
static bool near(const std::vector<ld>& a, const std::vector<ld>& b) { if (a.size() != b.size()) return false; for (std::size_t k = 0; k < a.size(); ++k) if (std::fabs(a[k] - b[k]) > std::fabs(a[k]) * (ld)std::numeric_limits<T>::epsilon() * 8 * a.size()) return false; return true; }
template<class D> bool same(const D& a, const D& b, const std::string& key, const std::string& what) {
  bool e = a == b, n = a != b; H::eval(); if (e == n) { H::viol(key + "/operators", H::cat(what, ": == and != agree")); return false; } if (e) return true;
  if (Vec<D>::lossy && near(Acc<D>::get(a), Acc<D>::get(b))) { H::viol(key + "/round-off " + what.substr(0, what.find(", ")), H::cat(what, ": equal only up to round-off")); return true; }
  H::viol(key, H::cat(what, ": not equal")); return false;
}
template<class D> std::vector<std::pair<D, Info>>& others() { static std::vector<std::pair<D, Info>> v; return v; }
template<class D> void collect() { if (others<D>().empty()) family([](auto d, const Info& i) { if constexpr (std::is_same<decltype(d), D>::value) others<D>().push_back({ d, i }); }); }
template<class D> std::string fam(const Info& i) { return i.name.substr(0, i.name.find('(')); }
static const int NV = 60;
template<class D> struct ValidReal { static bool ok(const std::vector<ld>& a) { for (ld x : a) if (!(x > 0)) return false; return true; } };
#define VREAL(D, ...) template<class... A> struct ValidReal<D<A...>> { static bool ok(const std::vector<ld>& a) { return __VA_ARGS__; } };
VREAL(br::uniform_real_distribution, a[0] < a[1]) VREAL(boost::uniform_real, a[0] < a[1]) VREAL(br::bernoulli_distribution, a[0] >= 0 && a[0] <= 1) VREAL(br::geometric_distribution, a[0] > 0 && a[0] < 1) VREAL(br::normal_distribution, a[1] >= 0) VREAL(br::lognormal_distribution, a[1] >= 0) VREAL(br::laplace_distribution, a[1] > 0) VREAL(br::extreme_value_distribution, a[1] > 0) VREAL(br::cauchy_distribution, a[1] > 0)
VREAL(br::poisson_distribution, a[0] > 0 && a[0] < 30000)
template<class O, class D> O Make(const std::vector<ld>& a);
// is parameter k an integer?
template<class D> struct IsInt { static const int n = 0; };
template<class I, class R> struct IsInt<br::binomial_distribution<I, R>> { static const int n = 1; }; template<class I, class R> struct IsInt<br::negative_binomial_distribution<I, R>> { static const int n = 1; };
template<class I> struct IsInt<br::uniform_int_distribution<I>> { static const int n = 2; }; template<class I> struct IsInt<br::uniform_smallint<I>> { static const int n = 2; }; template<class I> struct IsInt<boost::uniform_int<I>> { static const int n = 2; }; template<class R> struct IsInt<br::uniform_on_sphere<R>> { static const int n = 2; };
template<class D> bool Whole(std::size_t k) { return (int)k < IsInt<D>::n; }
template<class D, class I> bool fits(ld x) { return x >= (ld)std::numeric_limits<I>::min() && x <= (ld)std::numeric_limits<I>::max(); }
template<class D> bool Valid(const std::vector<ld>& a) {
  typedef typename D::result_type R; const ld lo = Acc<D>::get(D())[0]; (void)lo;
  for (ld x : a) if (std::isinf(x)) return false;
  if constexpr (IsInt<D>::n == 2) { if constexpr (!std::is_arithmetic<R>::value) return a[0] >= 0; else return fits<D, R>(a[0]) && fits<D, R>(a[1]) && a[0] <= a[1] && a[1] - a[0] < 1e18L; }
  else if constexpr (IsInt<D>::n == 1) return fits<D, R>(a[0]) && a[0] >= 0 && a[1] > 0 && a[1] <= 1;
  else if (a.size() == 3) return a[0] <= a[1] && a[1] <= a[2] && a[0] < a[2];
  else return ValidReal<D>::ok(a);
}

template<class O> O MakeOne(const std::vector<ld>& a) { if constexpr (std::is_constructible<O, T>::value) return O((T)a[0]); else return O(); }
template<class O, class D> O Make(const std::vector<ld>& a) {
  if constexpr (IsInt<D>::n == 2) { if constexpr (!std::is_arithmetic<typename D::result_type>::value) return O((int)a[0]); else { typedef typename D::result_type I; return O((I)a[0], (I)a[1]); } }
  else if constexpr (IsInt<D>::n == 1) { typedef typename D::result_type I; return O((I)a[0], (T)a[1]); }
  else { if constexpr (std::is_constructible<O, T, T, T>::value) { if (a.size() == 3) return O((T)a[0], (T)a[1], (T)a[2]); } if constexpr (std::is_constructible<O, T, T>::value) { if (a.size() == 2) return O((T)a[0], (T)a[1]); } return MakeOne<O>(a); }
}
#if VERIF_PROP == 19
template<class D> void params(D d, const Info& i, int idx) {
  collect<D>(); typedef typename D::param_type P; const std::string f = fam<D>(i), w = i.name; const u64 seed = H::rng(H::hash(w)).next(); P p = d.param(); const D fresh(d);
  auto report = [&](const auto& o, const char* what) { auto v = Acc<D>::get(o); bool ok = Vec<D>::value ? near(i.args, v) : v == i.args; CHECK(ok, f + "/accessors", w, ": ", what, " reports ", H::str(v), ", not ", H::str(i.args)); };
  report(d, "the distribution"); report(p, "the parameter object"); CHECK(p == d.param() && !(p != d.param()), f + "/param", w, ": param() twice differs");
  for (int used : { 0, 1, 2, 3, 7 }) feeds(seed + used, [&](auto e0, const char* en) {
    const std::string ww = H::cat(w, ", ", en, ", after ", used, " draws");
    typedef decltype(e0) E; D ref(d); E er(e0); auto want = run(ref, er, NV); same(ref, fresh, f + "/drawing", ww + ": a used distribution");
    auto test = [&](D x, const char* what) { if (!same(x, fresh, f + "/equal", ww + ": " + what)) return; report(x, what); if (!(x == fresh)) return; E e(e0); auto got = run(x, e, NV); CHECK(eq(want, got), f + "/values", ww, ": ", what, ": ", show(want, got)); };
    auto use = [&](D& x, bool reset) { E e(e0); run(x, e, used); if (reset) x.reset(); };
    test(D(p), "from parameters"); { D x(d); use(x, true); test(x, "reset after use"); } { D x(d); use(x, false); x.param(p); test(x, "own parameters set on a used distribution"); }
    { D x(d); use(x, false); D y(x); x.reset(); y.reset(); test(x, "copied from and reset"); test(y, "copy of a used distribution, reset"); }
    { D x(d), y(d); use(x, false); y = x; E e1(e0), e2(e0); auto a = run(x, e1, NV), b = run(y, e2, NV); CHECK(eq(a, b), f + "/copies", ww, ": an assigned distribution draws other values, ", show(a, b)); D z(x); E e3(e1); auto c = run(x, e1, NV), g = run(z, e3, NV); CHECK(eq(c, g), f + "/copies", ww, ": a copy draws other values, ", show(c, g)); same(x, z, f + "/copies", ww + ": copy"); D& self = x; x = self; same(x, z, f + "/copies", ww + ": assigned to itself"); }
    { D x; use(x, false); x.param(p); x.reset(); test(x, "parameters set on a default distribution"); }
    const auto& o = others<D>(); for (int t = 0; t < 3; ++t) { auto& q = o[(seed + t * 31 + used) % o.size()]; if (aname(q.second.args) == aname(i.args)) continue; D x(q.first); use(x, false); x.param(p); x.reset(); test(x, "parameters set on another distribution"); x = q.first; use(x, false); x = d; test(x, "assigned over another distribution");
      // per-call parameters leave the stored ones alone
      D y(q.first), keep(q.first); E e1(e0); auto got = runp(y, e1, p, NV); if (!Vec<D>::value) CHECK(eq(want, got), f + "/per call", ww, ": parameters per call of another distribution: ", show(want, got)); same(y, keep, f + "/per call", ww + ": parameters per call changed the stored ones"); E e2(e1), e3(e1); y.reset(); auto a = run(y, e2, NV), b = run(keep, e3, NV); CHECK(eq(a, b), f + "/per call", ww, ": parameters per call changed later values, ", show(b, a));
      D y2(q.first), keep2(q.first); E e4(e0), e5(e0); use(y2, false); use(keep2, false); (void)runp(y2, e4, p, 1); E e6(e0); auto a2 = run(y2, e6, NV), b2 = run(keep2, e5, NV); CHECK(eq(a2, b2), f + "/per call", ww, ": a call with parameters changed later values, ", show(b2, a2)); }
    H::event("sequences compared", 12); H::seen(ww);
  });
  // different parameters
  const auto& o = others<D>(); for (auto& q : o) { bool equal = q.second.args == i.args; if (Vec<D>::value && near(q.second.args, i.args)) continue; bool a = q.first == fresh, b = q.first.param() == p; CHECK(a == equal && (q.first != fresh) == !equal, f + "/different", w, " and ", q.second.name, equal ? " compare unequal" : " compare equal"); CHECK(b == equal && (q.first.param() != p) == !equal, f + "/different", w, " and ", q.second.name, ": parameters", equal ? " compare unequal" : " compare equal"); H::event("pairs of parameter sets"); }
  if constexpr (!Vec<D>::value) for (std::size_t k = 0; k < i.args.size(); ++k) for (int dir = 0; dir < 4; ++dir) {   // one parameter moved by the smallest amount, or by much
    std::vector<ld> a = i.args; auto move = [&](auto& x) { bool whole = Whole<D>(k); if (whole) x += dir == 0 ? 1 : dir == 1 ? -1 : dir == 2 ? 5 : -7; else x = dir == 0 ? (ld)std::nextafter((T)x, (T)0.3) : dir == 1 ? (ld)std::nextafter((T)x, std::numeric_limits<T>::max()) : dir == 2 ? (ld)(T)(x * 1.25L) : (ld)(T)(x * 0.5L + 0.125L); };
    move(a[k]); if (a == i.args || !Valid<D>(a)) continue; P q = Make<P, D>(a); D dq(q); auto v = Acc<D>::get(q), v2 = Acc<D>::get(dq), v3 = Acc<D>::get(dq.param()); CHECK(v == a && v2 == a && v3 == a, f + "/accessors", "parameters ", H::str(a), " are reported as ", H::str(v), ", ", H::str(v2), " and ", H::str(v3)); CHECK(!(q == p) && q != p, f + "/different", w, " and parameters ", H::str(a), " compare equal"); CHECK(!(dq == fresh) && dq != fresh, f + "/different", w, " and ", H::str(a), " compare equal");
    D dd = Make<D, D>(a); same(dd, dq, f + "/equal", H::cat("arguments ", H::str(a), " and parameters of them")); CHECK(Acc<D>::get(dd) == a, f + "/accessors", "arguments ", H::str(a), " are reported as ", H::str(Acc<D>::get(dd))); D set(d); set.param(q); same(set, dd, f + "/equal", H::cat("parameters ", H::str(a), " set"));
    br::mt19937 e1((u32)seed), e2((u32)seed), e3((u32)seed); auto x = run(dd, e1, NV), y = run(dq, e2, NV), z = run(set, e3, NV); CHECK(eq(x, y) && eq(x, z), f + "/values", "arguments ", H::str(a), ": constructed, from parameters and set draw different values"); H::event("parameters moved"); }
  if (idx % 4 == 0) H::sample(H::cat(w, ": constructed, from parameters, set, copied, reset, per call; 5 engines"));
}
template<class D> void defaults(const D&, const Info& i) { typedef typename D::param_type P; D a; P p; D b(p); const std::string f = fam<D>(i); same(a, b, f + "/default", f + ": default distribution and default parameters"); CHECK(a.param() == p, f + "/default", f, ": default parameters"); CHECK(Acc<D>::get(a) == Acc<D>::get(p), f + "/default", f, ": default accessors"); H::event("defaults"); }
#else
template<class S> struct Fmt { std::ios_base::fmtflags f; typename S::char_type c; std::streamsize p, w; explicit Fmt(S& s) : f(s.flags()), c(s.fill()), p(s.precision()), w(s.width()) {} bool operator==(const Fmt& o) const { return f == o.f && c == o.c && p == o.p; } };
template<class C, class O, class E> void stream(O o, const std::vector<O>& into, E e0, const std::string& f, const std::string& w, int mode) {
  typedef std::basic_stringstream<C> S; S s; s.precision(std::numeric_limits<T>::max_digits10); s.fill((C)'*');
  switch (mode) { case 1: s << std::scientific; break; case 2: s << std::uppercase << std::showpos << std::boolalpha; break; case 3: s << std::left; break; case 4: s << std::hex; break; case 5: s << std::showpoint << std::internal; break; case 6: s << std::oct << std::showbase; break; case 7: s << std::hex << std::showbase << std::uppercase; break; case 8: s.precision(std::numeric_limits<T>::max_digits10 + 5); break; }
  const O before(o); Fmt<S> f0(s); s << o; CHECK(s.good(), f + "/write", w, ": the stream failed"); CHECK(Fmt<S>(s) == f0, f + "/format", w, ": writing changed the stream's format"); std::basic_string<C> text = s.str(); CHECK(o == before, f + "/disturb", w, ": writing changed the object"); 
  s << (C)' ' << 12345 << (C)'\n' << o << (C)' ' << o << (C)' ' << 77; S once(s.str()); 
  for (const O& t0 : into) { S r(s.str()); r.flags(s.flags()); r.fill((C)'#'); Fmt<S> g0(r); O t(t0); int x = 0, y = 0; O u, v; r >> t; CHECK(!r.fail(), f + "/read", w, ": reading back failed"); CHECK(Fmt<S>(r) == g0, f + "/format", w, ": reading changed the stream's format"); r >> x >> u >> v >> y; CHECK(!r.fail() && x == 12345 && y == 77, f + "/text", w, ": the data that follow were not left alone: ", x, " ", y);
    same(t, o, f + "/restored", w + ": restored object"); same(u, o, f + "/restored", w + ": second restored object"); same(v, o, f + "/restored", w + ": third restored object");
    S again; again.copyfmt(s); again << t; if (!Vec<typename std::conditional<std::is_void<E>::value, O, O>::type>::lossy) CHECK(again.str() == text, f + "/text", w, ": the restored object is written differently"); H::event("objects restored", 3); }
  H::seen(H::cat(w, mode, sizeof(C)));
}
template<class D, class C, class E> void values(D d, const std::vector<D>& into, E e0, const std::string& f, const std::string& w, int used) {
  typedef std::basic_stringstream<C> S; E e(e0); D copy(d); S s; s.precision(std::numeric_limits<T>::max_digits10); { E e1(e0); run(d, e1, used); E e2(e0); run(copy, e2, used); e = e1; } s << d; auto str = s.str(); E ea(e), eb(e), ec(e); auto b = run(copy, eb, NV); D saved(d); auto a = run(d, ea, NV); CHECK(eq(a, b), f + "/disturb", w, ": writing disturbed the values, ", show(b, a));
  for (const D& t0 : into) { S r(str); D t(t0); E et(e0); run(t, et, 3); r >> t; CHECK(!r.fail(), f + "/read", w, ": reading back failed"); E e1(e); if (Vec<D>::lossy && !(t == saved)) { same(t, saved, f + "/restored", w); continue; } auto c = run(t, e1, NV); CHECK(eq(a, c), f + "/values", w, ": the restored distribution draws other values, ", show(a, c)); CHECK(Acc<D>::get(t) == Acc<D>::get(saved) || near(Acc<D>::get(t), Acc<D>::get(saved)), f + "/restored", w, ": restored parameters ", H::str(Acc<D>::get(t)), ", not ", H::str(Acc<D>::get(saved))); H::event("restored sequences"); }
}
template<class D> struct AccP { typedef D type; };
template<class D> void params(D d, const Info& i, int idx) {
  collect<D>(); typedef typename D::param_type P; const std::string f = fam<D>(i), w = i.name; const u64 seed = H::rng(H::hash(w)).next(); const auto& o = others<D>(); std::vector<D> into = { D(), o[seed % o.size()].first, o[(seed >> 20) % o.size()].first, d };
  bool negative = false; for (ld x : i.args) negative |= x < 0;
  for (int mode = 0; mode < 9; ++mode) { if (negative && (mode == 4 || mode == 6 || mode == 7)) continue; stream<char>(d, into, br::mt19937(), f, H::cat(w, ", format ", mode), mode); if (mode < 4) stream<wchar_t>(d, into, br::mt19937(), f, H::cat(w, ", wide, format ", mode), mode);
    // parameter objects
    for (auto& q : into) { std::stringstream s; s.precision(std::numeric_limits<T>::max_digits10); switch (mode) { case 1: s << std::scientific; break; case 4: s << std::hex; break; case 2: s << std::showpos; break; } P p = d.param(), t = q.param(); s << p << ' ' << 4711; int x = 0; auto fl = s.flags(); s >> t; CHECK(!s.fail() && s.flags() == fl, f + "/param read", w, ": reading parameters back"); s >> x; CHECK(x == 4711, f + "/param text", w, ": data after the parameters"); CHECK(t == p && !(t != p), f + "/param restored", w, ": restored parameters are not equal"); auto av = Acc<D>::get(t), bv = Acc<D>::get(p); CHECK(av == bv, f + "/param restored", w, ": restored parameters ", H::str(av), ", not ", H::str(bv)); D x1(t), x2(p); same(x1, x2, f + "/param restored", w + ": distributions from restored parameters"); H::event("parameters restored");
      std::wstringstream ws; ws.precision(std::numeric_limits<T>::max_digits10); ws << p; P u; ws >> u; CHECK(!ws.fail() && u == p, f + "/param restored", w, ": wide stream"); } }
  for (int used : { 0, 1, 2, 5 }) feeds(seed + used, [&](auto e, const char* en) { std::string ww = H::cat(w, ", ", en, ", saved after ", used, " draws"); values<D, char>(d, into, e, f, ww, used); if (used < 2) values<D, wchar_t>(d, into, e, f, ww + ", wide", used); H::seen(ww); });
  if (idx % 4 == 0) H::sample(H::cat(w, ": 9 stream formats, 4 targets, 5 engines"));
}
template<class D> void defaults(const D&, const Info&) {}
#endif
static bool reg = [] { std::set<std::string> fams; family([&](auto d, const Info& i) { fams.insert(fam<decltype(d)>(i)); });
  for (auto& n : fams) H::scens().push_back({ n, [n] { int k = 0; bool first = true; family([&](auto d, const Info& i) { if (fam<decltype(d)>(i) != n) return; if (first) defaults(d, i); first = false; params(d, i, k++); }); } });
#if VERIF_FAM == 4
  H::scens().push_back({ "uniform_01", [] { br::uniform_01<T> a, b; br::mt19937 e1(5), e2(5); CHECK(run(a, e1, NV) == run(b, e2, NV), "uniform_01", "values"); a.reset(); std::stringstream s; s << a << " 5 " << b; int x = 0; br::uniform_01<T> c; s >> c >> x; CHECK(!s.fail() && x == 5, "uniform_01", "stream"); H::event("objects"); } });
#endif
  return true; }();
