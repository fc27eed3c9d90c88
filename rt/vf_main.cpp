// Monitoring runtime: decision streams, verdicts, watchdogs, leak oracle,
// workers, replay, the multi-threaded driver and the libFuzzer entry point.
#include "vf.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <thread>
#include <unordered_set>

extern "C" {
__attribute__((weak)) void __sanitizer_set_death_callback(void (*)(void));
__attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();
}

namespace vf {

// ------------------------------------------------------------ global state
static const char* g_outdir = ".";
static const char* g_id = "";
static uint64_t g_seed = 1;
static int g_worker = 0;
static bool g_mt = false, g_thorough = false, g_child = false;
static std::set<std::string> g_known;
static uint64_t g_case = 0;
static Src* g_src = nullptr;  // current case (single-threaded modes)

struct Stats {
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  uint64_t evals = 0, nontrivial = 0, exits = 0, leakchecks = 0, known = 0;
  std::map<std::string, uint64_t> known_keys;
};
struct Case {
  Src* src = nullptr;
  uint64_t sig = 0; bool has_sig = false, nontriv = false, quiet = false, exempt = false, want_sample = false;
};
static thread_local Stats* t_stats = nullptr;
static thread_local Case t_case;

// steps (logical time), reached program points, harvested constants
static uint64_t g_steps = 0, g_step_limit = 0, g_maxsteps = 0;
static const size_t PCN = 1 << 16;
static uintptr_t g_pcs[PCN];
static uint64_t g_pccount = 0;
static const int KN = 512;
static uint64_t g_const[KN]; static int g_nconst = 0;
static uint8_t g_consth[4096];
static double g_dconst[64]; static int g_ndconst = 0;

static int64_t g_signed_const(int i) { return (int64_t)g_const[i]; }

static Harness* g_list = nullptr;
void reg(Harness* h) { h->next = g_list; g_list = h; }
static Harness* findh(const char* id) {
  for (Harness* h = g_list; h; h = h->next) if (!strcmp(h->id, id)) return h;
  fprintf(stderr, "no harness %s\n", id); _exit(3);
}

bool mt() { return g_mt; }
bool thorough() { return g_thorough; }
uint64_t seed() { return g_seed; }

// ------------------------------------------------------------ Src
static inline uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
Src::Src(uint64_t seed) : gen_(true) { s_[0] = splitmix(seed); s_[1] = splitmix(seed) | 1; rec_.reserve(4096); }
Src::Src(const uint8_t* d, size_t n) : gen_(false), d_(d), n_(n) { s_[0] = s_[1] = 1; }
uint64_t Src::next64() {
  uint64_t a = s_[0], b = s_[1]; s_[0] = b; a ^= a << 23; s_[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s_[1] + b;
}
static inline int nbytes(uint64_t n) { uint64_t m = n - 1; int k = 0; while (m) { ++k; m >>= 8; } return k; }
// record (gen) v < n, or decode
uint64_t Src::enc(uint64_t v, uint64_t n) {
  int k = nbytes(n);  // n==0 means full 64 bit
  if (gen_) { for (int i = 0; i < k; ++i) rec_.push_back((v >> (8 * i)) & 255); return v; }
  uint64_t r = 0; for (int i = 0; i < k; ++i) { uint64_t b = pos_ < n_ ? d_[pos_] : 0; ++pos_; r |= b << (8 * i); }
  return n ? r % n : r;
}
uint64_t Src::below(uint64_t n) { if (n == 1) return 0; uint64_t v = 0; if (gen_) { v = next64(); if (n) v %= n; } return enc(v, n); }
unsigned char Src::byte() { return (unsigned char)below(256); }
long long Src::uni(long long lo, long long hi) { if (hi <= lo) return lo; return (long long)((uint64_t)lo + below((uint64_t)hi - (uint64_t)lo + 1)); }

long long Src::range(long long lo, long long hi) {
  if (hi <= lo) return lo;
  uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;  // 0 = full
  auto clampd = [&](long long v, long long d) {
    long long r; if (__builtin_add_overflow(v, d, &r)) r = d > 0 ? hi : lo; return r < lo ? lo : r > hi ? hi : r;
  };
  bool wide = span == 0 || span > 65536;
  uint64_t mode = 0;
  if (wide) mode = below(4);
  if (mode == 1) return (long long)((uint64_t)lo + below(256));
  if (mode == 2) return (long long)((uint64_t)hi - below(256));
  if (mode == 3) { long long d = (long long)below(256); return clampd(0, d & 1 ? -(d >> 1) - 1 : d >> 1); }
  uint64_t v = 0;
  if (gen_) {
    uint64_t k = next64() % 16; long long r = lo;
    if (k < 6) r = (long long)((uint64_t)lo + (span ? next64() % span : next64()));
    else if (k == 6) r = clampd(lo, (long long)(next64() % 3));
    else if (k == 7) r = clampd(hi, -(long long)(next64() % 3));
    else if (k == 8) r = clampd(0, (long long)(next64() % 5) - 2);
    else if (k < 11) { int sh = next64() % 63; long long p = 1ll << sh; if (next64() & 1) p = -p; r = clampd(p, (long long)(next64() % 3) - 1); }
    else if (k < 14 && g_nconst && !g_mt) {
      long long c = g_signed_const(next64() % g_nconst); if (next64() % 4 == 0) c = (long long)(0 - (uint64_t)c);
      r = next64() % 2 ? clampd(c, 0) : clampd(c, (long long)(next64() % 3) - 1);
    } else { int bits = next64() % 64; uint64_t u = next64() >> (63 - bits); long long x = (long long)(u >> 1); if (next64() & 1) x = -x; r = clampd(x, 0); }
    r = r < lo ? lo : r > hi ? hi : r;
    v = (uint64_t)r - (uint64_t)lo;
  }
  return (long long)((uint64_t)lo + enc(v, span));
}
int Src::size(int max) {
  if (max <= 0) return 0;
  uint64_t v = 0; uint64_t n = (uint64_t)max + 1;
  if (gen_) {
    uint64_t k = next64() % 16;
    if (k < 9) v = next64() % std::min<uint64_t>(n, 9);
    else if (k < 12) v = next64() % std::min<uint64_t>(n, 33);
    else if (k < 14) { int b = 1; while ((1u << b) < n) ++b; v = next64() % (1u << (1 + next64() % b)); }
    else if (k == 14 && g_nconst && !g_mt) { v = g_const[next64() % g_nconst] + (next64() % 3) - 1; if (v > (uint64_t)max) v = next64() % n; }
    else v = next64() % n;
    v %= n;
  }
  return (int)enc(v, n);
}
double Src::unit() { return (double)below(1ull << 53) / 9007199254740992.0; }
double Src::real(double lo, double hi) {
  uint64_t mode = below(8); double r;
  switch (mode) {
    case 0: r = lo; break;
    case 1: r = hi; break;
    case 2: r = (double)uni((long long)std::max(lo, -1e15), (long long)std::min(hi, 1e15)); break;
    case 3: { int e = (int)uni(-40, 40); r = std::ldexp(unit() - 0.5, e); break; }
    case 4: { double c = 0; uint64_t bits = 0;
      if (gen_) { if (g_ndconst && !g_mt) c = g_dconst[next64() % g_ndconst]; memcpy(&bits, &c, 8); bits += (next64() % 3) - 1; if (!g_ndconst) bits = 0; }
      bits = enc(bits, 0); memcpy(&r, &bits, 8); if (!(r == r) || std::isinf(r)) r = lo; break; }
    default: r = lo + unit() * (hi - lo);
  }
  r = r < lo ? lo : r > hi ? hi : r; return r;
}
std::string Src::bytes(int maxlen) { int n = size(maxlen); std::string r; for (int i = 0; i < n; ++i) r.push_back((char)byte()); return r; }
std::string Src::str(int maxlen, const std::string& a) { int n = size(maxlen); std::string r; for (int i = 0; i < n; ++i) r.push_back(a[below(a.size())]); return r; }
std::string Src::text(int maxlen) {
  switch (below(8)) {
    case 0: return bytes(maxlen);
    case 1: { int n = size(maxlen); std::string r; for (int i = 0; i < n; ++i) r.push_back((char)uni(32, 126)); return r; }
    case 2: return str(maxlen, "ab");
    case 3: { std::string p = str(6, "abc01 %+/="); if (p.empty()) p = "a"; int n = size(maxlen); std::string r; while ((int)r.size() < n) r += p; r.resize(n); return r; }
    case 4: return str(maxlen, "\\\"/\b\f\n\r\tu0a{}[]:,");
    case 5: { int n = size(maxlen); std::string r; for (int i = 0; i < n; ++i) r.push_back((char)(below(3) ? uni(97, 122) : uni(128, 255))); return r; }
    case 6: { static const std::string a("\0\1\x7f\x80\xff\xfe %", 8); return str(maxlen, a); }
    default: { int n = size(maxlen); std::string r; for (int i = 0; i < n; ++i) r.push_back("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~+ "[below(68)]); return r; }
  }
}

// ------------------------------------------------------------ observations
void note(const char* c, uint64_t n) { if (t_stats && !t_case.quiet) t_stats->counters[c] += n; }
void sig(uint64_t h) { t_case.sig = (t_case.sig ^ h) * 0x9E3779B97F4A7C15ull; t_case.sig ^= t_case.sig >> 29; t_case.has_sig = true; }
static uint64_t hashb(const void* p, size_t n) { uint64_t h = 1469598103934665603ull; const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull; return h ^ (h >> 31); }
void sig(const std::string& s) { sig(hashb(s.data(), s.size())); }
void nontrivial() { t_case.nontriv = true; }
void sample(const std::function<std::string()>& f) {
  if (t_stats && t_case.want_sample && !t_case.quiet) { t_case.want_sample = false; std::string x = f(); if (x.size() > 700) x = x.substr(0, 700) + "..."; t_stats->samples.push_back(x); }
}
void leak_exempt() { t_case.exempt = true; }
void violate(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }

#define VF_M(T) Msg& Msg::operator<<(T x) { std::ostringstream o; o.precision(17); o << x; t += o.str(); return *this; }
VF_M(char) VF_M(int) VF_M(unsigned) VF_M(long) VF_M(unsigned long) VF_M(long long) VF_M(unsigned long long) VF_M(double) VF_M(float)
Msg& Msg::operator<<(long double x) { std::ostringstream o; o.precision(21); o << x; t += o.str(); return *this; }
Msg& Msg::operator<<(bool x) { t += x ? "true" : "false"; return *this; }
Msg& Msg::operator<<(const char* x) { t += x; return *this; }
Msg& Msg::operator<<(const std::string& x) { t += x; return *this; }
void fail(const char* key, const Msg& m) { throw Violation{key, m.t}; }

std::string quote(const std::string& s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, 8, "\\x%02x", c); r += b; } if (r.size() > 400) { r += "..."; break; } }
  return r + "\"(" + std::to_string(s.size()) + ")";
}

// std::cerr capture: keep the first 4 KiB of text since the last reset.
struct CapBuf : std::streambuf {
  char buf[4096]; size_t n = 0;
  int overflow(int c) override { if (c != EOF && n < sizeof buf) buf[n++] = (char)c; return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* s, std::streamsize k) override { for (std::streamsize i = 0; i < k && n < sizeof buf; ++i) buf[n++] = s[i]; return k; }
};
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize k) override { return k; } };
static CapBuf g_cap; static NullBuf g_null; static std::streambuf *g_real_cerr = nullptr;
void cerr_reset() { g_cap.n = 0; }
std::string cerr_text() { return std::string(g_cap.buf, g_cap.n); }

static std::string trim(const std::string& s) { size_t a = 0, b = s.size(); while (a < b && isspace((unsigned char)s[a])) ++a; while (b > a && isspace((unsigned char)s[b - 1])) --b; return s.substr(a, b - a); }

Outcome observe(const std::function<void()>& f) {
  Outcome o{false, 0, "", false, ""};
  cerr_reset();
  try { f(); }
  catch (const Exit& e) { o.exited = true; o.status = e.status; o.diag = trim(cerr_text()); t_case.exempt = true; if (t_stats && !t_case.quiet) ++t_stats->exits; }
  catch (const Violation&) { throw; }
  catch (const std::exception& e) { o.threw = true; o.what = e.what(); }
  return o;
}
void must_reject(const std::string& key, const std::function<void()>& f, const std::function<std::string()>& what) {
  if (g_mt) return;
  t_case.exempt = true;
  Outcome o = observe(f);
  if (!o.exited) violate(key, "invalid use was not rejected (" + std::string(o.threw ? "exception " + o.what : "call returned") + "): " + what());
  if (o.status == 0) violate(key, "invalid use ended the process with a success status: " + what());
  if (o.diag.empty()) violate(key, "invalid use ended the process without a diagnostic: " + what());
  note("rejections observed");
}

int real_child(const std::function<void()>& f, std::string& diag) {
  int p[2]; if (pipe(p)) _exit(3);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    g_child = true; close(p[0]); dup2(p[1], 2); close(p[1]);
    int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1);
    struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &z, nullptr);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(nullptr);
    std::cerr.rdbuf(g_real_cerr);
    try { f(); } catch (...) { _exit(99); }
    std::cerr.flush();
    _exit(98);  // f returned: the call was not rejected
  }
  close(p[1]); char b[512]; ssize_t k; diag.clear();
  while ((k = read(p[0], b, sizeof b)) > 0) if (diag.size() < 8192) diag.append(b, k);
  close(p[0]); int st = 0; waitpid(pid, &st, 0); diag = trim(diag); return st;
}

// ------------------------------------------------------------ dumping
static void dump_current(const char* tag) {
  Src* src = g_src; if (!src) return;
  char path[512]; snprintf(path, sizeof path, "%s/%s-w%d.bin", g_outdir, tag, g_worker);
  int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) return;
  const std::vector<uint8_t>& r = src->rec(); size_t off = 0;
  while (off < r.size()) { ssize_t k = write(fd, r.data() + off, r.size() - off); if (k <= 0) break; off += k; }
  close(fd);
  dprintf(2, "VF-DUMP kind=%s case=%llu file=%s\n", tag, (unsigned long long)g_case, path);
}
static std::atomic<int> g_dying{0};
static void on_death() { if (g_dying.exchange(1) == 0) dump_current("crash"); }
#ifdef VF_TSAN
}  // namespace vf
extern "C" void __tsan_on_report(void*) { if (!vf::g_mt) vf::on_death(); }
namespace vf {
#endif
static void report_hang(const char* why) {
  if (g_child) _exit(97);
  dprintf(2, "VF-HANG %s\n", why);
#ifdef VF_FUZZ
  abort();
#else
  if (g_dying.exchange(1) == 0) dump_current("hang");
  _exit(77);
#endif
}
static volatile uint64_t g_tick_case = ~0ull; static volatile int g_ticks = 0;
static int g_cpu_limit = 60;
static void on_prof(int) {
  if (g_tick_case != g_case) { g_tick_case = g_case; g_ticks = 0; }
  else if (++g_ticks >= g_cpu_limit) report_hang("cpu-time watchdog");
}

static void on_blocked(int) { report_hang("all threads sleep without progress"); }

void progress() { if (g_mt) return; if (g_steps > g_maxsteps) g_maxsteps = g_steps; g_steps = 0; g_ticks = 0; }

// Runs one case. Returns 0 held, 1 violation (v filled), 2 known finding.
static int run_case(Harness* h, Src& s, Violation& v) {
  t_case.src = &s; if (!g_mt) g_src = &s; t_case.sig = 0; t_case.has_sig = false; t_case.nontriv = false; t_case.exempt = false;
  if (!g_mt) { cerr_reset(); if (g_steps > g_maxsteps) g_maxsteps = g_steps; g_steps = 0; }
  int rc = 0;
  try { h->fn(s); }
  catch (const Violation& x) { v = x; rc = 1; }
  catch (const Exit& e) { v = Violation{std::string(h->id) + ":valid-use-exited", "valid use ended the process, status " + std::to_string(e.status) + ", diagnostic: " + cerr_text()}; rc = 1; }
  catch (const std::exception& e) { v = Violation{std::string(h->id) + ":unexpected-exception", std::string("exception escaped: ") + e.what()}; rc = 1; }
  if (rc == 1 && g_known.count(v.key)) { if (t_stats) { t_stats->known++; t_stats->known_keys[v.key]++; } rc = 2; }
  return rc;
}
static bool leak_check(Harness* h, const std::vector<uint8_t>& rec, Violation& v) {
  // the case ended with more live heap than it began: does that repeat?
  if (!__sanitizer_get_current_allocated_bytes) return false;
  t_case.quiet = true; size_t grow[3];
  for (int i = 0; i < 3; ++i) {
    size_t a = __sanitizer_get_current_allocated_bytes(); size_t b;
    { Src s(rec.data(), rec.size()); Violation w; run_case(h, s, w); t_case.src = nullptr; }
    b = __sanitizer_get_current_allocated_bytes(); grow[i] = b > a ? b - a : 0;
    if (!grow[i]) break;
  }
  t_case.quiet = false;
  if (grow[0] && grow[1] && grow[2]) { v = Violation{std::string(h->id) + ":leak", "live heap grows by " + std::to_string(grow[2]) + " bytes on every repetition of the case"}; return true; }
  return false;
}

static std::string jesc(const std::string& s) {
  std::string r; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, 8, "\\u%04x", c); r += b; } }
  return r;
}
static void write_stats(const Stats& st, const std::vector<uint64_t>& sigs) {
  std::ofstream o(std::string(g_outdir) + "/stats-w" + std::to_string(g_worker) + ".json");
  uint64_t ms = std::max(g_maxsteps, g_steps);
  o << "{\"evals\":" << st.evals << ",\"nontrivial\":" << st.nontrivial << ",\"exits\":" << st.exits << ",\"leakchecks\":" << st.leakchecks << ",\"maxsteps\":" << ms << ",\"points\":" << g_pccount << ",\"consts\":" << g_nconst + g_ndconst << ",\"counters\":{";
  bool f = true; for (auto& c : st.counters) { o << (f ? "" : ",") << '"' << jesc(c.first) << "\":" << c.second; f = false; }
  o << "},\"known\":{"; f = true; for (auto& c : st.known_keys) { o << (f ? "" : ",") << '"' << jesc(c.first) << "\":" << c.second; f = false; }
  o << "},\"samples\":["; f = true; for (auto& c : st.samples) { o << (f ? "" : ",") << '"' << jesc(c) << '"'; f = false; }
  o << "]}\n";
  std::ofstream b(std::string(g_outdir) + "/sigs-w" + std::to_string(g_worker) + ".bin", std::ios::binary);
  b.write((const char*)sigs.data(), sigs.size() * 8);
  std::ofstream p(std::string(g_outdir) + "/pcs-w" + std::to_string(g_worker) + ".bin", std::ios::binary);
  for (size_t i = 0; i < PCN; ++i) if (g_pcs[i]) { uint64_t d = (uint64_t)(g_pcs[i] - (uintptr_t)&reg); p.write((const char*)&d, 8); }
}

static void setup_common() {
  const char* t = getenv("VERIF_TIER"); g_thorough = t && !strcmp(t, "thorough");
  if (const char* k = getenv("VF_KNOWN")) { std::ifstream f(k); std::string l; while (std::getline(f, l)) if (!l.empty()) g_known.insert(l); }
  if (const char* k = getenv("VF_CPU_LIMIT")) g_cpu_limit = atoi(k);
  g_step_limit = 600000000ull; if (const char* k = getenv("VF_STEP_LIMIT")) g_step_limit = strtoull(k, 0, 10);
  if (const char* k = getenv("VF_OUT")) g_outdir = k;
  if (!g_real_cerr) g_real_cerr = std::cerr.rdbuf();
  std::cerr.rdbuf(g_mt ? (std::streambuf*)&g_null : (std::streambuf*)&g_cap);
#ifndef VF_FUZZ
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
#endif
}
static void on_sig(int sn) { dprintf(2, "VF-SIGNAL %d\n", sn); on_death(); signal(sn, SIG_DFL); raise(sn); }
static void setup_signals() {
#if !defined(VF_ASAN)
  for (int sn : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_RESETHAND; sigaction(sn, &sa, nullptr); }
#endif
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
  sa.sa_handler = on_blocked; sigaction(SIGUSR1, &sa, nullptr);
  struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
}

static void print_violation(const Violation& v, const char* file) {
  std::string m = v.msg; for (auto& c : m) if (c == '\n') c = ' ';
  printf("VF-VIOLATION key=%s file=%s msg=%s\n", v.key.c_str(), file, m.c_str()); fflush(stdout);
}

static int do_run(const char* id, uint64_t sd, int worker, uint64_t ncases) {
  Harness* h = findh(id); g_id = id; g_seed = sd; g_worker = worker;
  Stats st; t_stats = &st; std::vector<uint64_t> sigs; std::unordered_set<uint64_t> seen;
  setup_signals();
  Violation v;
  if (h->once && worker == 0) {
    g_case = 0; Src dummy(sd); t_case = Case(); t_case.src = &dummy; g_src = nullptr; g_steps = 0; uint64_t lim = g_step_limit; g_step_limit = ~0ull; int cl = g_cpu_limit; g_cpu_limit = 600;
    int rc = 0;
    try {
      auto bytes = [] { return __sanitizer_get_current_allocated_bytes ? (size_t)__sanitizer_get_current_allocated_bytes() : (size_t)0; };
      size_t b0 = bytes(); h->once(); size_t b1 = bytes();
      // First use may fill caches of the library or the runtime; what grows in every later run as well is a leak.
      if (b1 > b0 + 16384 && !t_case.exempt) { h->once(); size_t b2 = bytes(); if (b2 > b1 + 16384) { h->once(); size_t b3 = bytes(); if (b3 > b2 + 16384) throw Violation{std::string(id) + ":leak", "each run of the fixed cases leaves " + std::to_string(b3 - b2) + " more bytes allocated"}; } }
    }
    catch (const Violation& x) { v = x; rc = 1; }
    catch (const Exit& e) { v = Violation{std::string(id) + ":valid-use-exited", "valid use ended the process: " + cerr_text()}; rc = 1; }
    catch (const std::exception& e) { v = Violation{std::string(id) + ":unexpected-exception", e.what()}; rc = 1; }
    if (rc && g_known.count(v.key)) { st.known_keys[v.key]++; rc = 0; }
    if (rc) { print_violation(v, "once"); return 1; }
    g_step_limit = lim; g_cpu_limit = cl; g_steps = 0;
  }
  for (uint64_t i = 0; i < ncases; ++i) {
    g_case = i + 1;
    uint64_t x = sd * 0x9E3779B97F4A7C15ull + (uint64_t)worker * 0xD1B54A32D192ED03ull + i; splitmix(x);
    size_t a0 = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
    std::vector<uint8_t> rec; int rc; bool exempt, nontriv; uint64_t sg;
    size_t recmem;
    {
      Src s(splitmix(x));
      t_case.want_sample = st.samples.size() < 6 && (i == 2 || i == 17 || i == 101 || i == 401 || i % 1009 == 1008);
      size_t s0 = st.samples.size() + st.counters.size();
      rc = run_case(h, s, v);
      exempt = t_case.exempt || s0 != st.samples.size() + st.counters.size(); nontriv = t_case.nontriv;
      sg = t_case.has_sig ? t_case.sig : hashb(s.rec().data(), s.rec().size());
      ++st.evals; if (nontriv) { ++st.nontrivial; }
      rec = s.rec(); recmem = 0; t_case.src = nullptr; g_src = nullptr;
    }
    (void)recmem;
    std::string file = std::string(g_outdir) + "/viol-w" + std::to_string(worker) + ".bin";
    if (rc == 0 && !exempt && __sanitizer_get_current_allocated_bytes) {
      size_t a1 = __sanitizer_get_current_allocated_bytes(); ++st.leakchecks;
      if (a1 > a0 + rec.capacity() + 64 * 0) {
        Violation w; if (leak_check(h, rec, w)) { if (g_known.count(w.key)) st.known_keys[w.key]++; else { v = w; rc = 1; } }
      }
    }
    if (rc == 1) {
      std::ofstream(file, std::ios::binary).write((const char*)rec.data(), rec.size());
      print_violation(v, file.c_str()); write_stats(st, sigs); return 1;
    }
    if (nontriv && seen.size() < 400000 && seen.insert(sg).second) sigs.push_back(sg);
  }
  write_stats(st, sigs);
  return 0;
}

static int do_replay(const char* id, const char* file) {
  std::ifstream f(file, std::ios::binary); std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  Harness* h = findh(id); g_id = id; setup_signals(); g_case = 1; Violation v; int rc;
  {
    Src s((const uint8_t*)d.data(), d.size()); rc = run_case(h, s, v);
  }
  if (rc == 0 && !t_case.exempt && __sanitizer_get_current_allocated_bytes) {
    std::vector<uint8_t> r(d.begin(), d.end()); if (leak_check(h, r, v)) rc = g_known.count(v.key) ? 2 : 1;
  }
  if (rc == 1) { print_violation(v, file); return 1; }
  printf("VF-HELD%s\n", rc == 2 ? " (known)" : ""); return 0;
}

// Multi-threaded driver: independent objects in concurrent threads.
static int do_mt(uint64_t sd, uint64_t rounds, int nthreads, std::vector<std::string> ids) {
  g_seed = sd; g_mt = true;
  std::vector<Harness*> hs; for (auto& i : ids) hs.push_back(findh(i.c_str()));
  std::vector<Stats> sts(nthreads); std::vector<std::vector<uint64_t>> sg(nthreads);
  std::atomic<int> ready{0}; std::atomic<uint64_t> overlap{0};
  std::vector<std::atomic<int>> cur(nthreads); for (auto& c : cur) c = -1;
  std::vector<std::set<std::pair<int,int>>> pairs(nthreads);
  std::vector<std::thread> th;
  for (int t = 0; t < nthreads; ++t) th.emplace_back([&, t] {
    t_stats = &sts[t]; uint64_t x = sd * 7919 + t * 104729 + 13;
    ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nthreads) std::this_thread::yield();
    for (uint64_t i = 0; i < rounds; ++i) {
      // phases: same component in all threads, then random mixes
      size_t k = (i / 8) % 2 ? splitmix(x) % hs.size() : (i / 16) % hs.size();
      Harness* h = hs[k];
      cur[t].store((int)k, std::memory_order_relaxed);
      for (int u = 0; u < nthreads; ++u) if (u != t) { int c = cur[u].load(std::memory_order_relaxed); if (c >= 0) pairs[t].insert({(int)k, c}); }
      Violation v; Src s(splitmix(x)); t_case.quiet = false; t_case.want_sample = false;
      int rc = run_case(h, s, v); ++sts[t].evals; if (t_case.nontriv) ++sts[t].nontrivial;
      sg[t].push_back(hashb(s.rec().data(), s.rec().size())); sts[t].counters[std::string("concurrent cases: ") + h->id]++;
      cur[t].store(-1, std::memory_order_relaxed); t_case.src = nullptr;
      if (rc == 1) {
        static std::atomic<int> once{0};
        if (once.exchange(1) == 0) { std::string file = std::string(g_outdir) + "/viol-mt.bin"; std::ofstream(file, std::ios::binary).write((const char*)s.rec().data(), s.rec().size());
          v.key = "C29:" + v.key; print_violation(v, file.c_str()); fflush(stdout); }
        _exit(1);
      }
    }
  });
  for (auto& t : th) t.join();
  Stats all; std::vector<uint64_t> sigs; std::set<std::pair<int,int>> ps;
  for (int t = 0; t < nthreads; ++t) { all.evals += sts[t].evals; all.nontrivial += sts[t].nontrivial; for (auto& c : sts[t].counters) all.counters[c.first] += c.second; sigs.insert(sigs.end(), sg[t].begin(), sg[t].end()); ps.insert(pairs[t].begin(), pairs[t].end()); }
  all.counters["distinct component pairs observed overlapping"] = ps.size();
  std::string smp = "overlapping components (first 12):"; int n = 0; for (auto& p : ps) if (n++ < 12) smp += std::string(" ") + hs[p.first]->id + "||" + hs[p.second]->id;
  all.samples.push_back(smp);
  write_stats(all, sigs); return 0;
}

}  // namespace vf

void vf_exit(int status) {
#ifdef exit
#undef exit
#endif
  if (vf::g_child) { std::cerr.flush(); std::exit(status); }
  throw vf::Exit{status};
}

#ifndef VF_FUZZ
// ---- coverage callbacks (g++ -fsanitize-coverage=trace-pc,trace-cmp) --------
static inline void vf_const(uint64_t c) {
  if (vf::g_mt) return;
  unsigned hsh = (unsigned)((c * 0x9E3779B97F4A7C15ull) >> 52);
  if (vf::g_consth[hsh]) return;
  if (vf::g_nconst < vf::KN) { vf::g_consth[hsh] = 1; vf::g_const[vf::g_nconst++] = c; }
}
extern "C" {
void __sanitizer_cov_trace_pc() {
  if (vf::g_mt) return;
  if (++vf::g_steps > vf::g_step_limit && vf::g_step_limit) vf::report_hang("step budget exceeded");
  uintptr_t pc = (uintptr_t)__builtin_return_address(0); size_t i = (pc * 0x9E3779B97F4A7C15ull) >> 48;
  while (vf::g_pcs[i] != pc) { if (!vf::g_pcs[i]) { if (vf::g_pccount < vf::PCN * 3 / 4) { vf::g_pcs[i] = pc; ++vf::g_pccount; } break; } i = (i + 1) & (vf::PCN - 1); }
}
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t) { vf_const((int64_t)(int8_t)a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { vf_const((int64_t)(int16_t)a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { vf_const((int64_t)(int32_t)a); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { vf_const(a); }
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_cmpf(float, float) {}
static inline void vf_dconst(double d) { if (vf::g_mt || vf::g_ndconst >= 64 || !(d == d)) return; for (int i = 0; i < vf::g_ndconst; ++i) if (vf::g_dconst[i] == d) return; vf::g_dconst[vf::g_ndconst++] = d; }
void __sanitizer_cov_trace_cmpd(double a, double b) {
  // a compile-time constant shows up again and again at the same place
  static uintptr_t lastpc[256]; static double lastA[256], lastB[256]; static uint8_t hitA[256], hitB[256];
  uintptr_t pc = (uintptr_t)__builtin_return_address(0); unsigned i = (unsigned)((pc * 0x9E3779B97F4A7C15ull) >> 56);
  if (vf::g_mt) return;
  if (lastpc[i] != pc) { lastpc[i] = pc; lastA[i] = a; lastB[i] = b; hitA[i] = hitB[i] = 0; return; }
  if (a == lastA[i]) { if (++hitA[i] == 8) vf_dconst(a); } else { lastA[i] = a; hitA[i] = 0; }
  if (b == lastB[i]) { if (++hitB[i] == 8) vf_dconst(b); } else { lastB[i] = b; hitB[i] = 0; }
}
void __sanitizer_cov_trace_switch(uint64_t, void* cases) { uint64_t* c = (uint64_t*)cases; for (uint64_t i = 0; i < c[0] && i < 64; ++i) vf_const(c[2 + i]); }
}
int main(int argc, char** argv) {
  std::vector<std::string> a(argv + 1, argv + argc);
  if (a.size() >= 1 && a[0] == "mt") { vf::g_mt = true; }
  vf::setup_common();
  if (a.size() == 5 && a[0] == "run") return vf::do_run(a[1].c_str(), strtoull(a[2].c_str(), 0, 10), atoi(a[3].c_str()), strtoull(a[4].c_str(), 0, 10));
  if (a.size() == 3 && a[0] == "replay") return vf::do_replay(a[1].c_str(), a[2].c_str());
  if (a.size() >= 5 && a[0] == "mt") return vf::do_mt(strtoull(a[1].c_str(), 0, 10), strtoull(a[2].c_str(), 0, 10), atoi(a[3].c_str()), std::vector<std::string>(a.begin() + 4, a.end()));
  if (a.size() == 1 && a[0] == "list") { for (vf::Harness* h = vf::g_list; h; h = h->next) printf("%s\n", h->id); return 0; }
  fprintf(stderr, "usage\n"); return 3;
}
#else
extern "C" int LLVMFuzzerInitialize(int*, char***) { vf::setup_common(); if (__sanitizer_set_death_callback) {} return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  static vf::Harness* h = vf::findh(getenv("VF_ID"));
  static vf::Stats* st = new vf::Stats; static uint64_t next = 1000;
  vf::t_stats = nullptr; (void)st; (void)next;
  vf::Src s(d, n); vf::Violation v; ++vf::g_case;
  int rc = vf::run_case(h, s, v); vf::t_case.src = nullptr;
  if (rc == 1) { vf::print_violation(v, "fuzz"); abort(); }
  return 0;
}
#endif
