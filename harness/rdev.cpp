// P25: random_device.  open, read and close are interposed: they follow a
// script of short reads and failures, hand out a known byte stream, and keep
// the books on descriptors.
#include "h.hpp"
#include <boost/random/random_device.hpp>
#include <boost/system/system_error.hpp>
#include <cerrno>
#include <cstdarg>
#include <csignal>
#include <new>
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
namespace br = boost::random;
static long live_blocks = 0; static bool count_blocks = false; static long fail_new = -1;
void* operator new(std::size_t n) { if (fail_new >= 0 && fail_new-- == 0) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (count_blocks) ++live_blocks; return p; }
void operator delete(void* p) noexcept { if (p && count_blocks) --live_blocks; std::free(p); } void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void* operator new[](std::size_t n) { return operator new(n); } void operator delete[](void* p) noexcept { operator delete(p); } void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
// ---- the interposed source ----
struct Act { int kind; int n; };   // 0 deliver at most n bytes, 1 fail with errno n, 2 end of file
struct Dev { std::string path; int flags; bool open; u64 pos; u64 reads; };
static std::map<int, Dev> devs; static int opens, closes, bad, open_errno, next_fd = 700; static std::string badwhat; static std::vector<Act> script; static std::size_t step_; static std::vector<std::string> opened; static bool real_calls = true; static u64 failures;
static unsigned char byte_at(const std::string& path, u64 k) { u64 z = H::hash(path) + (k + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 31; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 29; return z >> 24; }
static void wrong(const std::string& w) { ++bad; badwhat = w; }
extern "C" int open(const char* path, int flags, ...) {
  int mode = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); } if (real_calls) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  ++opens; opened.push_back(path); if (open_errno) { errno = open_errno; return -1; } if ((flags & O_ACCMODE) != O_RDONLY || flags & (O_CREAT | O_TRUNC)) wrong(H::cat("opened with flags ", flags)); int fd = next_fd++; devs[fd] = Dev{ path, flags, true, 0, 0 }; return fd;
}
extern "C" int open64(const char* path, int flags, ...) { return open(path, flags & ~O_CREAT); }
extern "C" ssize_t read(int fd, void* buf, size_t n) {
  if (real_calls) return syscall(SYS_read, fd, buf, n); auto it = devs.find(fd); if (it == devs.end() || !it->second.open) { wrong(H::cat("read from descriptor ", fd)); errno = EBADF; return -1; } Dev& d = it->second; ++d.reads; if (d.reads > 1000000) { wrong("reads without end"); errno = EIO; return -1; } if (n == 0) return 0;
  Act a = script.empty() ? Act{ 0, 1 << 20 } : script[step_++ % script.size()]; if (a.kind == 1) { errno = a.n; ++failures; return -1; } if (a.kind == 2) { ++failures; return 0; }
  size_t k = std::min<size_t>(n, std::max(1, a.n)); for (size_t j = 0; j < k; ++j) ((unsigned char*)buf)[j] = byte_at(d.path, d.pos++); return (ssize_t)k;
}
extern "C" int close(int fd) { if (real_calls) return (int)syscall(SYS_close, fd); ++closes; auto it = devs.find(fd); if (it == devs.end()) { wrong(H::cat("closed descriptor ", fd, ", which is not its own")); errno = EBADF; return -1; } if (!it->second.open) { wrong(H::cat("closed descriptor ", fd, " twice")); errno = EBADF; return -1; } it->second.open = false; return 0; }
static void fresh(std::vector<Act> s = {}) { devs.clear(); opens = closes = bad = open_errno = 0; script = s; step_ = 0; opened.clear(); failures = 0; real_calls = false; }
struct Real { ~Real() { real_calls = true; fail_new = -1; } };
static int still_open() { int n = 0; for (auto& d : devs) n += d.second.open; return n; }
static u32 word(const std::string& path, u64 at) { unsigned char b[4]; for (int k = 0; k < 4; ++k) b[k] = byte_at(path, at + k); u32 v; std::memcpy(&v, b, 4); return v; }
static const Dev& only() { return devs.rbegin()->second; }
static std::string show(const std::vector<Act>& s) { std::string r; for (std::size_t k = 0; k < s.size() && k < 12; ++k) r += H::cat(k ? "," : "", s[k].kind == 0 ? H::cat(s[k].n) : s[k].kind == 1 ? H::cat("E", s[k].n) : std::string("EOF")); return r; }
// draws follow the script; every value is the next bytes of the source
static void drive(const std::vector<Act>& s, int draws, const std::string& token, bool ranges) {
  fresh(s); Real guard; const std::string w = H::cat("reads of ", show(s));
  { br::random_device d(token); CHECK(opens == 1 && opened[0] == token, "open", w, ": opened ", opened.empty() ? "" : opened[0]); u64 from = 0;
    for (int k = 0; k < draws; ++k) { const Dev& v = only(); const u64 f0 = failures; from = v.pos; const std::size_t before = step_;
      if (ranges && k % 3 == 2) { std::vector<unsigned> r(1 + k % 7, 0x5a5a5a5au); r.push_back(0x5a5a5a5au); std::size_t n = r.size() - 1, done = n; bool threw = false; try { d.generate(r.begin(), r.begin() + n); } catch (const std::exception&) { threw = true; }
        CHECK(threw == (failures != f0), "loud", w, ": generate ", threw ? "threw without a failure" : "hid a failure"); CHECK(r[n] == 0x5a5a5a5au, "range", w, ": generate wrote past the range"); if (threw) { done = 0; while (done < n && from + 4 * (done + 1) <= v.pos && r[done] == word(token, from + 4 * done)) ++done; for (std::size_t j = done; j < n; ++j) CHECK(r[j] == 0x5a5a5a5au, "fabricated", w, ": element ", (u64)j, " was set although the source failed"); } else for (std::size_t j = 0; j < n; ++j) CHECK(r[j] == word(token, from + 4 * j), "bytes", w, ": element ", (u64)j, " of a range is ", r[j], ", not ", word(token, from + 4 * j)); H::event("ranges"); continue; }
      unsigned x = 0x5a5a5a5au; bool threw = false, other = false; try { x = d(); } catch (const std::exception& e) { threw = true; } catch (...) { threw = other = true; }
      CHECK(!other, "exception", w, ": threw something that is no standard exception"); CHECK(threw == (failures != f0), "loud", w, ": draw ", k, threw ? " threw without a failure" : " hid a failure"); if (!threw) { CHECK(x == word(token, v.pos - 4) && v.pos == from + 4, "bytes", w, ": value ", k, " is ", x, ", the source delivered ", word(token, from), "; ", v.pos - from, " bytes were read"); H::event("values"); } else { CHECK(x == 0x5a5a5a5au, "fabricated", w); H::event("failures reported"); } H::seen(H::cat(w, token, x)); H::event("reads", step_ - before); }
    double e = d.entropy(); CHECK(e >= 0 && e <= 32, "entropy", e); }
  CHECK(bad == 0, "descriptors", w, ": ", badwhat); CHECK(still_open() == 0 && closes == 1 && opens == 1, "descriptors", w, ": ", still_open(), " descriptors open, ", opens, " opens, ", closes, " closes");
}
static void scripts() {   // every script of up to 5 steps over a small alphabet
  std::vector<Act> A = { { 0, 1 }, { 0, 2 }, { 0, 3 }, { 0, 4 }, { 1, EIO }, { 2, 0 } }; for (int len = 1; len <= (H::st().thorough ? 6 : 5); ++len) { std::vector<int> ix(len); for (;;) { std::vector<Act> s; bool progress = false; for (int i : ix) { s.push_back(A[i]); progress |= A[i].kind == 0; } drive(s, progress ? 6 : 3, "/dev/urandom", false); int k = 0; while (k < len && ++ix[k] == (int)A.size()) ix[k++] = 0; if (k == len) break; } }
  H::sample("every script of up to 5 short reads, failures and ends");
}
static void random_scripts() {
  H::Rng r = H::rng(); const int errs[] = { EIO, EINTR, EAGAIN, EINVAL, EBADF, EFAULT, EISDIR, ENODEV, EPERM, ENOMEM, EOVERFLOW, 9999 };
  for (int k = 0; k < (int)H::n(3000, 60000); ++k) { std::vector<Act> s; int len = 1 + r.below(40), rate = r.below(4); for (int j = 0; j < len; ++j) { if ((int)r.below(12) < rate) s.push_back(r.below(3) ? Act{ 1, errs[r.below(12)] } : Act{ 2, 0 }); else s.push_back(Act{ 0, 1 + (int)r.below(5) }); } bool progress = false; for (auto& a : s) progress |= a.kind == 0; drive(s, progress ? 60 : 5, r.below(2) ? "/dev/urandom" : H::cat("token ", r.next()), true); }
  H::sample("scripts of up to 40 reads with all errors");
}
// construction, destruction, several devices
static void lifetimes() {
  H::Rng r = H::rng(); for (int h = 0; h < (int)H::n(300, 5000); ++h) { fresh({ { 0, 1 + (int)r.below(4) } }); Real guard; std::vector<std::pair<br::random_device*, std::pair<std::string, u64>>> v; u64 made = 0, failed = 0;
    for (int k = 0; k < 60; ++k) { switch (r.below(5)) {
      case 0: { open_errno = r.below(3) ? 0 : r.below(2) ? ENOENT : EMFILE; std::string t = r.below(3) ? H::cat("/dev/source", r.below(4)) : "/dev/urandom"; br::random_device* d = 0; bool threw = false; try { d = r.below(2) && t == "/dev/urandom" ? new br::random_device : new br::random_device(t); } catch (const std::exception& e) { threw = true; CHECK(std::string(e.what()).size() > 0, "message", "no message"); } CHECK(threw == (open_errno != 0), "loud", "construction ", threw ? "fails without cause" : "hides that the source cannot be opened"); CHECK(!opened.empty() && opened.back() == t, "open", "opened '", opened.empty() ? "" : opened.back(), "', not '", t, "'"); if (d) { v.push_back({ d, { t, 0 } }); ++made; } else ++failed; open_errno = 0; break; }
      case 1: if (!v.empty()) { std::size_t i = r.below(v.size()); delete v[i].first; v.erase(v.begin() + i); } break;
      default: if (!v.empty()) { auto& x = v[r.below(v.size())]; u32 got = (*x.first)(); CHECK(got == word(x.second.first, x.second.second), "bytes", "a device among ", (u64)v.size(), " delivers ", got, ", not the next bytes of ", x.second.first); x.second.second += 4; H::event("values"); } break; }
      CHECK(still_open() == (int)v.size(), "descriptors", (u64)v.size(), " devices hold ", still_open(), " descriptors"); CHECK(bad == 0, "descriptors", badwhat); }
    for (auto& x : v) delete x.first; CHECK(still_open() == 0 && bad == 0, "descriptors", "after destruction ", still_open(), " descriptors are open ", badwhat); H::event("devices", made); H::event("failed constructions", failed); H::seen(H::cat(h, made, failed)); }
  // no memory is lost, whatever fails
  for (int e : { 0, ENOENT, EACCES }) for (int f : { 0, 1 }) { fresh({ f ? Act{ 1, EIO } : Act{ 0, 3 } }); Real guard; open_errno = e; opened.reserve(5000); devs[1]; devs.clear(); long grow = 0; for (int k = 0; k < 200; ++k) { devs.clear(); opened.clear(); count_blocks = true; long b0 = live_blocks; bool threw = false; { try { br::random_device d(std::string("/dev/a source with a name that is long enough to need memory")); d(); } catch (const std::exception&) { threw = true; } } opened.clear(); devs.clear(); count_blocks = false; grow += live_blocks - b0; CHECK(threw == (e || f), "loud", "open error ", e, ", read failure ", f, ": ", threw ? "thrown" : "not thrown"); } CHECK(grow == 0, "memory", "open error ", e, ", read failure ", f, ": ", grow, " blocks of memory lost in 200 devices"); H::event("memory balances", 200); }
  for (int at = 0; at < 12; ++at) { fresh(); Real guard; bool threw = false; opened.reserve(100); { std::string t = "/dev/a source with a name that is long enough to need memory"; try { fail_new = at; br::random_device d(t); fail_new = -1; d(); } catch (const std::bad_alloc&) { threw = true; } catch (const std::exception&) { threw = true; } fail_new = -1; } CHECK(still_open() == 0 && bad == 0, "descriptors", "memory exhausted at allocation ", at, ": ", still_open(), " descriptors stay open ", badwhat, threw ? " (threw)" : ""); H::event("allocation failures", threw); }
  H::sample("up to 60 devices made, used and destroyed; constructions that fail; memory that runs out");
}
// real files, pipes and limits
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
static void files() {
  real_calls = true; H::Rng r = H::rng(); char dir[] = "/tmp/verif-rdev-XXXXXX"; if (!mkdtemp(dir)) throw std::runtime_error("mkdtemp"); const std::string D = dir; const int f0 = fds();
  auto put = [](const std::string& p, const std::string& s) { FILE* f = std::fopen(p.c_str(), "wb"); if (f) { std::fwrite(s.data(), 1, s.size(), f); std::fclose(f); } };
  for (int len = 0; len <= 41; ++len) { std::string s; for (int k = 0; k < len; ++k) s += (char)r.next(); put(D + "/f", s); br::random_device d(D + "/f"), e(D + "/f"); for (int k = 0; k < len / 4 + 3; ++k) for (auto* g : { &d, &e }) { unsigned x = 0, want = 0; bool threw = false; try { x = (*g)(); } catch (const std::exception&) { threw = true; } CHECK(threw == (k >= len / 4), "loud", "file of ", len, " bytes, value ", k, threw ? " fails" : " is fabricated"); if (!threw) { std::memcpy(&want, s.data() + 4 * k, 4); CHECK(x == want, "bytes", "file of ", len, " bytes: value ", k, " is ", x, ", not ", want); } } H::seen(H::cat("file ", len)); H::event("files"); }
  for (std::string bad : { D + "/none", D + "/f/none", std::string(""), std::string("/dev/nosuchdevice"), std::string(5000, 'x') }) { bool threw = false; try { br::random_device d(bad); } catch (const std::exception& e) { threw = true; } CHECK(threw, "loud", "source '", bad.substr(0, 60), "' does not exist"); H::event("missing sources"); }
  { bool threw = false; try { br::random_device d(D); d(); } catch (const std::exception&) { threw = true; } CHECK(threw, "loud", "a directory delivers values"); }
  { br::random_device z("/dev/zero"); for (int k = 0; k < 100; ++k) CHECK(z() == 0, "bytes", "/dev/zero"); }
  // a pipe that dribbles, ends in the middle, and is interrupted by signals
  for (int rep = 0; rep < (int)H::n(40, 400); ++rep) { const std::string p = D + "/p"; ::unlink(p.c_str()); if (mkfifo(p.c_str(), 0600)) throw std::runtime_error("mkfifo"); const int len = 40 + r.below(30); std::string s; for (int k = 0; k < len; ++k) s += (char)r.next(); std::vector<int> parts; for (int left = len; left > 0;) { int k = std::min<int>(left, 1 + r.below(5)); parts.push_back(k); left -= k; }
    std::thread t([&] { int fd = ::open(p.c_str(), O_WRONLY); std::size_t at = 0; for (int k : parts) { if (::write(fd, s.data() + at, k) != k) break; at += k; if (k % 2) ::usleep(50); } ::close(fd); });
    { br::random_device d(p); for (int k = 0; k < len / 4 + 2; ++k) { unsigned x = 0, want = 0; bool threw = false; try { x = d(); } catch (const std::exception&) { threw = true; } CHECK(threw == (k >= len / 4), "loud", "pipe of ", len, " bytes, value ", k, threw ? " fails" : " is fabricated"); if (!threw) { std::memcpy(&want, s.data() + 4 * k, 4); CHECK(x == want, "bytes", "pipe: value ", k, " is ", x, ", not ", want); } } t.join(); } H::seen(H::cat("pipe ", rep, len)); H::event("pipes"); }
  for (int rep = 0; rep < (int)H::n(6, 60); ++rep) { const std::string p = D + "/q"; ::unlink(p.c_str()); if (mkfifo(p.c_str(), 0600)) throw std::runtime_error("mkfifo"); struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) {}; sigaction(SIGUSR1, &sa, 0); pthread_t me = pthread_self(); std::string s; for (int k = 0; k < 400; ++k) s += (char)r.next();
    int wr = -1; std::thread t([&] { wr = ::open(p.c_str(), O_WRONLY); for (std::size_t k = 0; k < s.size(); ++k) { if (::write(wr, s.data() + k, 1) != 1) break; if (k % 3 == 0) { pthread_kill(me, SIGUSR1); ::usleep(60); } } ::close(wr); });
    { br::random_device* d = 0; while (!d) try { d = new br::random_device(p); } catch (const std::exception&) {} std::size_t got = 0, interrupted = 0; std::size_t at = 0; for (;;) { unsigned x; try { x = (*d)(); } catch (const boost::system::system_error& e) { if (e.code().value() == EINTR) { ++interrupted; if (interrupted > 100000) break; continue; } break; } catch (const std::exception&) { break; } bool found = false; for (std::size_t b = at; b < at + 12 * (interrupted + 1) && b + 4 <= s.size(); ++b) { unsigned want; std::memcpy(&want, s.data() + b, 4); if (want == x) { at = b + 4; found = true; break; } } CHECK(found, "bytes", "interrupted pipe: value ", (u64)got, " is not made of consecutive bytes of the source"); ++got; } delete d; t.join(); H::event("values under signals", got); H::event("interruptions", interrupted); } }
  { struct rlimit o, n; getrlimit(RLIMIT_NOFILE, &o); n = o; std::vector<br::random_device*> v; n.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &n); bool threw = false; for (int k = 0; k < 200; ++k) try { v.push_back(new br::random_device); } catch (const std::exception&) { threw = true; } CHECK(threw && v.size() > 30 && v.size() < 64, "loud", "descriptors exhausted: ", (u64)v.size(), " devices"); for (auto* d : v) (*d)(); for (auto* d : v) delete d; setrlimit(RLIMIT_NOFILE, &o); }
  { br::random_device a, b; std::set<unsigned> s; for (int k = 0; k < 20000; ++k) { s.insert(a()); s.insert(b()); } CHECK(s.size() > 39900, "bytes", "the default device repeats: ", (u64)s.size(), " different values of 40000"); u64 ones[32] = {}; for (unsigned x : s) for (int k = 0; k < 32; ++k) ones[k] += x >> k & 1; for (int k = 0; k < 32; ++k) CHECK(std::fabs(ones[k] - s.size() / 2.0) < 8 * std::sqrt(s.size() / 4.0), "bytes", "bit ", k, " of the default device is not balanced"); CHECK(br::random_device::min() == 0 && br::random_device::max() == ~0u, "bounds", "min() or max()"); }
  CHECK(fds() == f0, "descriptors", fds() - f0, " descriptors leaked"); for (const char* n : { "/f", "/p", "/q" }) ::unlink((D + n).c_str()); ::rmdir(D.c_str()); H::sample("files of 0 to 41 bytes, dribbling and interrupted pipes, exhausted descriptors");
}
static bool reg = [] { H::scens().push_back({ "scripts", scripts }); H::scens().push_back({ "random scripts", random_scripts }); H::scens().push_back({ "lifetimes", lifetimes }); H::scens().push_back({ "files", files }); return true; }();
