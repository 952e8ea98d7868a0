// P09: seed_seq and engines used as seed sequences.
#include "engines.hpp"
#include <boost/random/seed_seq.hpp>
#include <boost/array.hpp>
#include <random>
#include <deque>
#include <list>
#include <limits>
#define VERIF_STR2(x) #x
#define VERIF_STR(x) VERIF_STR2(x)

// ideal source over [lo, hi]
template<class T, T lo, T hi> struct Ideal {
  typedef T result_type; H::Rng g; u64 n;
  static constexpr T min() { return lo; } static constexpr T max() { return hi; }
  Ideal() : g(1), n(0) {} explicit Ideal(u64 s) : g(s), n(0) {}
  T operator()() { ++n; u64 r = (u64)hi - (u64)lo + 1; return (T)((u64)lo + g.below(r)); }   // r = 0 means all 64 bits
};
struct IdealReal { typedef double result_type; H::Rng g; static double min() { return 0; } static double max() { return 1; } IdealReal() : g(1) {} explicit IdealReal(u64 s) : g(s) {} double operator()() { return g.unit(); } };
struct IdealFloat { typedef float result_type; H::Rng g; static float min() { return 0; } static float max() { return 1; } IdealFloat() : g(1) {} explicit IdealFloat(u64 s) : g(s) {} float operator()() { return (float)((g.next() >> 40) * (1.0 / 16777216.0)); } };
template<class B> struct AsEngine : br::discard_block_engine<B, 1, 1> { typedef br::discard_block_engine<B, 1, 1> D; AsEngine() : D(B(1)) {} explicit AsEngine(u64 s) : D(B(s)) {} };

template<class V> double chi2(const std::vector<V>& c, double n) { double e = n / c.size(), s = 0; for (auto x : c) s += (x - e) * (x - e) / e; return s; }
// z-score of a chi-square statistic (Wilson-Hilferty)
inline double zchi(double x, double k) { return (std::pow(x / k, 1.0 / 3) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k)); }

template<class E> void mechanics(std::function<E(u64)> make) {
  H::Rng g = H::rng();
  for (int r = 0; r < (int)H::n(60, 600); ++r) {
    E src = make(g.next() >> 33); for (u64 k = g.below(50); k--;) src();
    std::size_t n = r < 12 ? r : r < 20 ? 30 + r : g.below(700);
    E a(src), b(src), c(src), d(src), e(src);
    const u32 C32 = 0xdeadbeef; const u64 C64 = 0xfeedfacecafebeefull;
    std::vector<u32> v(n + 8, C32); std::vector<u64> w(n + 8, C64);
    a.generate(v.begin() + 4, v.begin() + 4 + n); b.generate(w.begin() + 4, w.begin() + 4 + n);
    bool can = true; for (int i = 0; i < 4; ++i) can = can && v[i] == C32 && v[n + 4 + i] == C32 && w[i] == C64 && w[n + 4 + i] == C64;
    CHECK(can, "outside", "generate wrote outside a range of ", n);
    std::size_t same = 0; bool wide = true, eq = true;
    for (std::size_t i = 0; i < n; ++i) { wide = wide && w[4 + i] <= 0xffffffffu; eq = eq && w[4 + i] == v[4 + i]; same += v[4 + i] == C32; }
    CHECK(wide, "wide", "a 64-bit element received more than 32 bits, length ", n); CHECK(eq, "type", "the words depend on the destination type, length ", n);
    std::list<u32> l(n, C32); c.generate(l.begin(), l.end()); CHECK(std::equal(l.begin(), l.end(), v.begin() + 4), "iterator", "the words depend on the iterator type");
    { std::vector<u32> z(n, ~C32); E t(src); t.generate(z.data(), z.data() + n); CHECK(std::equal(z.begin(), z.end(), v.begin() + 4), "state", "the words depend on the earlier contents of the range"); }
    std::deque<unsigned long long> dq(n, 7); d.generate(dq.begin(), dq.end()); CHECK(std::equal(dq.begin(), dq.end(), v.begin() + 4), "iterator", "deque of unsigned long long");
    std::size_t m = n + g.below(40); std::vector<u32> longer(m); e.generate(longer.begin(), longer.end()); CHECK(std::equal(v.begin() + 4, v.begin() + 4 + n, longer.begin()), "prefix", "a request for ", m, " words does not begin with the words of a request for ", n);
    H::eval(n); H::event("requests", 6); H::event("words", 6 * n); H::seen(H::cat(H::st().scen, r, n)); if (r == 5) H::sample(H::cat("5 words ", std::vector<u32>(v.begin() + 4, v.begin() + 9)));
  }
}
template<class E> void stats(std::function<E(u64)> make, int bits, const char* what) {
  // every bit, byte and neighbouring pair of words must look uniform
  E e = make(H::rng(5).next() >> 34); const std::size_t n = H::n(100000, 2000000); std::vector<u32> v(n); e.generate(v.begin(), v.end());
  const double lim = 7.5;
  for (int b = 0; b < bits; ++b) { double c = 0, p = 0; for (std::size_t i = 0; i < n; ++i) { c += v[i] >> b & 1; if (i) p += (v[i] >> b & 1) == (v[i-1] >> b & 1); } double z = (2 * c - n) / std::sqrt((double)n), zp = (2 * p - (n - 1)) / std::sqrt((double)n - 1); CHECK(std::fabs(z) < lim, "bit-bias", what, ": bit ", b, " z ", z); CHECK(std::fabs(zp) < lim, "bit-serial", what, ": bit ", b, " agrees with its predecessor, z ", zp); }
  for (int o = 0; o + 8 <= bits; o += 4) { std::vector<u32> c(256); for (u32 x : v) c[x >> o & 255]++; double z = zchi(chi2(c, n), 255); CHECK(z < lim, "byte-bias", what, ": byte at bit ", o, " chi-square z ", z); }
  for (int x = 0; x < bits; x += 5) for (int y = x + 1; y < bits; y += 3) { double c = 0; for (u32 t : v) c += (t >> x & 1) ^ (t >> y & 1); double z = (2 * c - n) / std::sqrt((double)n); CHECK(std::fabs(z) < lim, "bit-pair", what, ": bits ", x, ",", y, " z ", z); }
  H::eval(n); H::event("words tested for uniformity", n); H::seen(H::cat(H::st().scen, "stats"));
}
template<class E> void engine() {
  mechanics<E>([](u64 s) { return E((u32)s); });
  if (std::is_same<E, br::mt19937>::value || std::is_same<E, br::mt19937_64>::value) {
    E a, b; std::vector<u32> v(999), w; a.generate(v.begin(), v.end()); while (w.size() < 999) { auto x = b(); w.push_back((u32)x); if (sizeof(x) == 8) w.push_back((u32)((u64)x >> 32)); } w.resize(999); CHECK(v == w, "packing", "the words are not the engine's values in order");
  }
  // the lagged Fibonacci engines start from weak integer seeds, rand48 has 31 bits
  { std::string nm = H::st().scen; if (std::string(VERIF_STR(VERIF_GROUP)).find("PRE") != std::string::npos && nm != "rand48" && nm.substr(0, 2) != "lf") stats<E>([](u64 s) { return E((u32)s); }, 32, nm.c_str()); }
}
template<class B> void ideal(const char* nm) { typedef AsEngine<B> E; mechanics<E>([](u64 s) { return E(s); }); stats<E>([](u64 s) { return E(s); }, 32, nm); }

#ifdef VERIF_GROUP
#define X(n) static H::Reg SCEN_CAT(reg_, n)(#n, [] { engine<E_##n>(); });
VERIF_GROUP(X)
#endif
#if VERIF_PART == 1
#define ID(nm, T, lo, hi) SCEN("ideal-" nm) { ideal<Ideal<T, lo, hi>>(nm); }
ID("2", uint32_t, 0, 1) ID("3", uint32_t, 0, 2) ID("4", uint8_t, 1, 4) ID("5", uint32_t, 0, 4) ID("6", uint32_t, 1, 6) ID("7", uint32_t, 0, 6) ID("8", uint16_t, 0, 7) ID("9", uint32_t, 0, 8) ID("12", uint32_t, 0, 11) ID("13", int32_t, -6, 6) ID("24", uint32_t, 0, 23) ID("33", uint32_t, 0, 32)
ID("100", int16_t, -50, 49) ID("255", uint8_t, 0, 254) ID("256", uint8_t, 0, 255) ID("257", uint32_t, 0, 256) ID("1000", int32_t, -500, 499) ID("65535", uint16_t, 0, 65534) ID("65536", uint16_t, 0, 65535) ID("65537", uint32_t, 0, 65536)
ID("2p24", uint32_t, 0, 16777215) ID("2p31", int32_t, 0, 2147483647) ID("2p31m1", uint32_t, 1, 2147483647) ID("3p30", uint32_t, 0, 3221225471u) ID("2p32m1", uint32_t, 0, 4294967294u) ID("2p32", uint32_t, 0, 4294967295u)
ID("i32", int32_t, -2147483647-1, 2147483647)
#elif VERIF_PART == 2
#define ID(nm, T, lo, hi) SCEN("ideal-" nm) { ideal<Ideal<T, lo, hi>>(nm); }
ID("2p32+1", uint64_t, 0, 4294967296ull) ID("2p33", uint64_t, 0, 8589934591ull) ID("2p48", uint64_t, 0, 281474976710655ull) ID("2p61", uint64_t, 0, 2305843009213693951ull) ID("2p63", int64_t, 0, 9223372036854775807ll) ID("5p62", uint64_t, 0, 5764607523034234879ull) ID("3p62", uint64_t, 0, 13835058055282163711ull) ID("2p64m1", uint64_t, 0, 18446744073709551614ull) ID("2p64", uint64_t, 0, 18446744073709551615ull) ID("i64", int64_t, -9223372036854775807ll-1, 9223372036854775807ll) ID("2p40+3", int64_t, -5, 1099511627773ll)
ID("2p36", uint64_t, 10, 68719476745ull) ID("2p62", uint64_t, 0, 4611686018427387903ull) ID("2p16in64", uint64_t, 0, 65535)
SCEN("ideal-double") { ideal<IdealReal>("double"); }
SCEN("ideal-float") { ideal<IdealFloat>("float"); }
SCEN("seed_seq") {
  H::Rng g = H::rng();
  for (int r = 0; r < (int)H::n(3000, 60000); ++r) {
    std::size_t s = r < 40 ? r % 8 : g.below(g.below(10) ? 40 : 1500); std::vector<u32> in(s); int kind = (int)g.below(4); for (auto& x : in) x = kind == 0 ? 0xffffffffu - (u32)g.below(3) : kind == 1 ? (u32)g.below(3) : (u32)g.next();
    std::size_t n = r < 700 ? r : g.below(g.below(10) ? 60 : 1300); if (r < 700 && H::quick() && r % 3) n = g.below(50);
    br::seed_seq a(in.begin(), in.end()); std::seed_seq b(in.begin(), in.end());
    std::vector<u32> w(n); b.generate(w.begin(), w.end());
    std::vector<u32> v(n + 2, 5); a.generate(v.begin() + 1, v.end() - 1); CHECK(v[0] == 5 && v[n + 1] == 5 && std::equal(w.begin(), w.end(), v.begin() + 1), "words32", "seed_seq of ", in, " generates other words than the standard prescribes, length ", n);
    std::vector<u64> v6(n + 2, ~5ull); a.generate(v6.begin() + 1, v6.end() - 1); CHECK(v6[0] == ~5ull && v6[n + 1] == ~5ull && std::equal(w.begin(), w.end(), v6.begin() + 1), "words64", "seed_seq of ", in, " generates other 64-bit words than the standard prescribes, length ", n);
    std::deque<u32> dq(n); a.generate(dq.begin(), dq.end()); CHECK(std::equal(w.begin(), w.end(), dq.begin()), "deque", "deque");
    if (n) { std::vector<u32> p(n); a.generate(&p[0], &p[0] + n); CHECK(p == w, "again", "a second request gives other words"); }
    br::seed_seq c(in); std::vector<u32> q(n); c.generate(q.begin(), q.end()); CHECK(q == w, "range-ctor", "constructed from a range");
    std::vector<u64> in64(in.begin(), in.end()); for (auto& x : in64) x |= g.next() << 32; br::seed_seq d(in64.begin(), in64.end()); d.generate(q.begin(), q.end()); CHECK(q == w, "mod", "input words are not taken modulo 2^32");
    CHECK(a.size() == s, "size", "size"); std::vector<u32> back; a.param(std::back_inserter(back)); CHECK(back == in, "param", "param"); const br::seed_seq cp(a); std::vector<u32> t(n); cp.generate(t.begin(), t.end()); CHECK(t == w, "copy", "copy");
    H::eval(n); H::event("words", 3 * n); H::seen(H::cat(s, "/", n, "/", in)); if (r == 100) H::sample(H::cat(s, " input words, ", n, " output words: ", w));
  }
  br::seed_seq il{1, 2, 3}; std::seed_seq sl{1, 2, 3}; std::vector<u32> x(20), y(20); il.generate(x.begin(), x.end()); sl.generate(y.begin(), y.end()); CHECK(x == y, "init-list", "initializer list");
  br::seed_seq e0; std::seed_seq s0; e0.generate(x.begin(), x.end()); s0.generate(y.begin(), y.end()); CHECK(x == y && e0.size() == 0, "empty", "default constructed");
}
#endif
