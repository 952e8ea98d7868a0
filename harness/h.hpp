// Scenario framework shared by every monitor.
//   <bin> --list                       prints the scenario names
//   <bin> --run NAME --seed S --tier quick|thorough
// A scenario prints one JSON object per line: violations as they are seen and a
// final "done" object with what was observed.  A process that ends without the
// "done" object died; the driver turns that into a violation of the scenario.
#ifndef VERIF_H_HPP
#define VERIF_H_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <stdexcept>
#include <iostream>
#include <type_traits>

typedef std::uint32_t u32; typedef std::uint64_t u64; typedef std::int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

namespace H {

struct State {
  u64 seed = 1; bool thorough = false; std::string scen;
  u64 evals = 0;
  std::unordered_set<u64> distinct;
  std::map<std::string, u64> events;
  std::vector<std::string> samples;
  std::map<std::string,int> vcount;
  int viols = 0;
};
inline State& st() { static State s; return s; }

inline std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
// own generator, independent of the code under test
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
  u64 next() {   // xorshift64* over a Weyl sequence
    s += 0x9E3779B97F4A7C15ull; u64 z = s;
    z ^= z >> 32; z *= 0xd6e8feb86659fd93ull; z ^= z >> 32; z *= 0xd6e8feb86659fd93ull; z ^= z >> 32;
    return z;
  }
  u64 below(u64 n) {   // unbiased; 0 stands for 2^64
    if (!n) return next();
    for (;;) { u128 p = (u128)next() * n; if ((u64)p >= n || (u64)p >= (0 - n) % n) return (u64)(p >> 64); }
  }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a) + 1); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool coin() { return next() >> 63; }
  template<class V> const typename V::value_type& pick(const V& v) { return v[below(v.size())]; }
};
inline u64 hash(const std::string& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline u64 mix(u64 a, u64 b) { u64 z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15) * 0xBF58476D1CE4E5B9ull; z ^= z >> 29; return z * 0x94D049BB133111EBull ^ (z >> 31); }
// generator for this scenario and salt
inline Rng rng(u64 salt = 0) { return Rng(mix(mix(st().seed, hash(st().scen)), salt)); }

inline std::string str(u128 v) { if (!v) return "0"; std::string r; while (v) { r.insert(r.begin(), char('0' + (int)(v % 10))); v /= 10; } return r; }
inline std::string str(i128 v) { return v < 0 ? "-" + str((u128)0 - (u128)v) : str((u128)v); }
template<class T> std::string str(const T& v) { std::ostringstream o; o.precision(21); o << v; return o.str(); }
inline std::string str(const std::string& s) { return s; }
inline std::string str(unsigned char c) { return str((int)c); }
inline std::string str(signed char c) { return str((int)c); }
inline std::string str(char c) { return str((int)c); }
template<class T> std::string str(const std::vector<T>& v) { std::string r = "["; for (std::size_t i = 0; i < v.size() && i < 12; ++i) r += (i ? "," : "") + str(v[i]); return r + (v.size() > 12 ? ",...]" : "]"); }
inline std::string cat() { return std::string(); }
template<class T, class... R> std::string cat(const T& t, const R&... r) { return str(t) + cat(r...); }

inline void eval(u64 n = 1) { st().evals += n; }
inline void seen(u64 h) { if (st().distinct.size() < 200000) st().distinct.insert(h); }
inline void seen(const std::string& s) { seen(hash(s)); }
inline void event(const std::string& n, u64 k = 1) { st().events[n] += k; }
inline void sample(const std::string& s) { if (st().samples.size() < 6) st().samples.push_back(s); }

inline void viol(const std::string& key, const std::string& msg) {
  State& s = st();
  if (s.vcount[key]++ < 2) {
    std::printf("{\"t\":\"viol\",\"key\":\"%s\",\"msg\":\"%s\"}\n", esc(key).c_str(), esc(msg).c_str());
    std::fflush(stdout);
  }
  if (++s.viols > 400) { std::printf("{\"t\":\"done\",\"truncated\":1,\"evals\":%llu,\"distinct\":%llu,\"events\":{},\"samples\":[]}\n", (unsigned long long)s.evals, (unsigned long long)s.distinct.size()); std::fflush(stdout); std::_Exit(0); }
}
// CHECK(condition, key, message pieces...) : one oracle evaluation
#define CHECK(cond, key, ...) do { ++H::st().evals; if (!(cond)) H::viol(H::cat(key), H::cat(__VA_ARGS__)); } while (0)
#define CHECK_RET(cond, key, ...) do { ++H::st().evals; if (!(cond)) { H::viol(H::cat(key), H::cat(__VA_ARGS__)); return; } } while (0)

struct Scen { std::string name; std::function<void()> fn; };
inline std::vector<Scen>& scens() { static std::vector<Scen> v; return v; }
struct Reg { Reg(const std::string& n, std::function<void()> f) { scens().push_back({n, f}); } };
#define SCEN_CAT2(a,b) a##b
#define SCEN_CAT(a,b) SCEN_CAT2(a,b)
#define SCEN_2(name, c) static void SCEN_CAT(scen_,c)(); static H::Reg SCEN_CAT(reg_,c)(name, SCEN_CAT(scen_,c)); static void SCEN_CAT(scen_,c)()
#define SCEN(name) SCEN_2(name, __COUNTER__)

inline bool quick() { return !st().thorough; }
inline u64 n(u64 q, u64 t) { return st().thorough ? t : q; }

inline int main_(int argc, char** argv) {
  std::string run; bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--list") list = true;
    else if (a == "--run") run = argv[++i];
    else if (a == "--seed") st().seed = std::strtoull(argv[++i], 0, 10);
    else if (a == "--tier") st().thorough = std::string(argv[++i]) == "thorough";
  }
  if (list) { for (auto& s : scens()) std::printf("%s\n", s.name.c_str()); return 0; }
  for (auto& s : scens()) if (s.name == run) {
    st().scen = run;
    try { s.fn(); }
    catch (std::exception& e) { viol("exception", cat("unexpected exception: ", e.what())); }
    catch (...) { viol("exception", "unexpected exception"); }
    State& t = st();
    std::string o = "{\"t\":\"done\",\"evals\":" + str(t.evals) + ",\"distinct\":" + str((u64)t.distinct.size()) + ",\"events\":{";
    bool f = true; for (auto& e : t.events) { o += (f ? "" : ",") + ("\"" + esc(e.first) + "\":" + str(e.second)); f = false; }
    o += "},\"samples\":["; f = true; for (auto& e : t.samples) { o += (f ? "\"" : ",\"") + esc(e) + "\""; f = false; }
    std::printf("%s]}\n", o.c_str()); std::fflush(stdout);
    return 0;
  }
  std::fprintf(stderr, "no scenario %s\n", run.c_str());
  return 3;
}
} // namespace H
#ifndef VERIF_NO_MAIN
int main(int argc, char** argv) { return H::main_(argc, argv); }
#endif
#endif
