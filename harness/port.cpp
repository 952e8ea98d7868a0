// P30 independence of the build.  Walks through the catalogue of steps.hpp and
// writes every value delivered to the file named by VERIF_TRACE_FILE; check.py
// compares the files of the same scenario from differently built programs.
#define VERIF_TRACE
#include "steps.hpp"
static u64 sd(std::size_t kind, int copy) { return H::mix(H::st().seed, H::mix(kind * 64 + (u64)copy, 30)); }
static const int CH = 4;
static void walk(int c) {
  const char* fn = std::getenv("VERIF_TRACE_FILE"); std::FILE* f = fn ? std::fopen(fn, "w") : 0; if (!f) { H::viol("trace", "no trace file"); return; }
  const int n = (int)H::n(60, 500), copies = 2;
  for (std::size_t k = (std::size_t)c; k < kinds().size(); k += CH) for (int j = 0; j < copies; ++j) {
    std::fprintf(f, "# %s\n", kinds()[k].name.c_str()); tracef() = f;
    try { auto s = kinds()[k].make(sd(k, j)); for (int i = 0; i < n; ++i) { u64 d = s->step(); H::eval(); if (i % 16 == 0) H::seen(d); } }
    catch (std::exception& e) { std::fprintf(f, "! %s\n", typeid(e).name()); H::viol(H::cat("exception/", kinds()[k].name), e.what()); }
    tracef() = 0;
  }
#ifdef VERIF_GROUP
  if (c == 0) { tracef() = f;
#define X(n) if constexpr (Far<E_##n>::value) { std::fprintf(f, "# far %s\n", #n); E_##n e; e.discard(20000003); for (int k = 0; k < 20; ++k) digest(e()); }
    VERIF_GROUP(X)
#undef X
    tracef() = 0; }
#endif
  H::event("values written down", traced()); H::event("kinds of object", (kinds().size() + CH - 1 - c) / CH);
  if (kinds().size() > (std::size_t)c) H::sample(kinds()[c].name); else H::eval();
  std::fprintf(f, "# end\n"); if (std::fclose(f)) H::viol("trace", "cannot write the trace");
}
SCEN("values 0") { walk(0); }
SCEN("values 1") { walk(1); }
SCEN("values 2") { walk(2); }
SCEN("values 3") { walk(3); }
