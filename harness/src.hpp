// Scripted engines of every integer and real type.
#ifndef VERIF_SRC_HPP
#define VERIF_SRC_HPP
#include "h.hpp"
#include <limits>
// Source of digits: script first, then the continuation.
struct Src {
  std::vector<u64> script; std::size_t pos = 0; u64 drawn = 0, limit = ~0ull; int mode = 0; H::Rng* rng = 0; std::vector<u64> used;
  struct Over {};
  // outputs of an unlucky engine: extremes, near extremes, runs of them, lone extremes
  u64 run = 0; int kind = 0;
  u64 hostile(u64 R) {
    const u64 top = R - 1;
    switch (mode) {
      case 2: return rng->coin() ? 0 : top;
      case 3: { const u64 c[] = { 0, 1, 2, top, top - 1, top / 2, top / 2 + 1, top - 2 }; return c[rng->below(8)] % (R ? R : ~0ull); }
      case 4: if (!run) { run = 1 + rng->below(12); kind = (int)rng->below(4); } --run; return kind == 0 ? 0 : kind == 1 ? top : rng->below(R);
      case 5: return rng->below(6) ? rng->below(R) : rng->coin() ? 0 : top;
      case 6: { u64 v = rng->below(R) >> rng->below(64); return rng->coin() ? v : top - v; }
      default: return rng->below(4) ? rng->below(R) : rng->coin() ? top >> rng->below(64) : top - (top >> rng->below(64));
    }
  }
  u64 next(u64 R) {   // R = 0: 2^64
    if (drawn++ >= limit) throw Over();
    u64 v; if (pos < script.size()) v = script[pos++]; else v = mode == 0 ? 0 : mode == 1 || drawn > 3000 ? rng->below(R) : hostile(R);
    if (mode == 0) used.push_back(v);
    return v;
  }
};
template<class T, bool real> struct Scr;
template<class T> struct Scr<T, false> {
  typedef T result_type; T lo, hi; Src* s;
  T min() const { return lo; } T max() const { return hi; }
  u64 R() const { return (u64)hi - (u64)lo + 1; }
  T operator()() { return (T)((u64)lo + s->next(R())); }
};
template<class T> struct Scr<T, true> {
  typedef T result_type; Src* s;
  static T min() { return 0; } static T max() { return 1; }
  u64 R() const { return std::numeric_limits<T>::digits >= 64 ? 0 : (u64)1 << std::numeric_limits<T>::digits; }
  T operator()() { return std::ldexp((T)s->next(R()), -std::numeric_limits<T>::digits); }
};
template<class B> struct mk { static const bool real = std::is_floating_point<B>::value; typedef Scr<B, real> type; };
template<class B> typename mk<B>::type make(Src& s, B lo, B hi) { typename mk<B>::type e; e.s = &s; if constexpr (!mk<B>::real) { e.lo = lo; e.hi = hi; } return e; }

#endif
