// Monitoring runtime used by all harnesses.
#ifndef VF_H
#define VF_H
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

// Thrown by the hooked exit().
struct Exit { int status; };

// The oracle's verdict: an observation that contradicts the property.
struct Violation { std::string key, msg; };

// A stream of decisions.  In generation mode decisions come from a PRNG and
// are recorded; in replay / fuzz mode the same bytes are decoded.
class Src {
 public:
  explicit Src(uint64_t seed);
  Src(const uint8_t* data, size_t n);
  bool gen() const { return gen_; }
  uint64_t below(uint64_t n);                 // 0..n-1
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  long long uni(long long lo, long long hi);  // uniform
  long long range(long long lo, long long hi);// boundary/constant-aware
  int size(int max);                          // mostly small, sometimes up to max
  double unit();                              // [0,1)
  double real(double lo, double hi);          // boundary/constant-aware
  unsigned char byte();
  std::string bytes(int maxlen);              // arbitrary bytes
  std::string str(int maxlen, const std::string& alphabet);
  std::string text(int maxlen);               // mixture: printable, special, periodic, arbitrary
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  bool exhausted() const { return !gen_ && pos_ >= n_; }
  const std::vector<uint8_t>& rec() const { return rec_; }
  uint64_t next64();
 private:
  uint64_t enc(uint64_t v, uint64_t n);
  bool gen_;
  uint64_t s_[2];
  const uint8_t* d_ = nullptr; size_t n_ = 0, pos_ = 0;
  std::vector<uint8_t> rec_;
};

// ---- verdicts and observations -------------------------------------------
[[noreturn]] void violate(const std::string& key, const std::string& msg);
void note(const char* counter, uint64_t n = 1);       // event counters (evidence)
void sig(uint64_t h);                                  // mixes into the case signature
void sig(const std::string& s);
void nontrivial();                                     // this case exercised the property
void sample(const std::function<std::string()>& f);    // candidate evidence sample
void progress();                                       // a finished unit of work inside a long case: the hang watchdogs start over
bool mt();                                             // running in the multi-threaded build
bool thorough();
uint64_t seed();
void leak_exempt();                                    // case contains a (hooked) process exit

// Diagnostics captured from std::cerr since the last reset.
void cerr_reset();
std::string cerr_text();

// Runs f; true iff it ended in a failure exit (status != 0) with a diagnostic.
// Any exit with status 0, or one without a diagnostic, is a violation.
struct Outcome { bool exited; int status; std::string diag; bool threw; std::string what; };
Outcome observe(const std::function<void()>& f);
void must_reject(const std::string& key, const std::function<void()>& f,
                 const std::function<std::string()>& what);

// Observe in a forked child with the real exit(): status, stdout untouched.
// Returns the wait status; diag gets what the child wrote to fd 2.
int real_child(const std::function<void()>& f, std::string& diag);

template <class T> __attribute__((noinline)) std::string show(const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
std::string quote(const std::string& s);
template <class C> std::string show_seq(const C& c, size_t max = 40) {
  std::ostringstream o; o.precision(17); o << '['; size_t i = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++i) { if (i) o << ", "; if (i >= max) { o << "..."; break; } o << *it; }
  o << ']'; return o.str();
}

struct Harness { const char* id; void (*fn)(Src&); void (*once)(); bool mt_ok; Harness* next; };
void reg(Harness* h);

// Message builder with out-of-line formatting (keeps harness objects small).
class Msg {
 public:
  Msg& operator<<(const char* x); Msg& operator<<(const std::string& x); Msg& operator<<(char x); Msg& operator<<(bool x);
  Msg& operator<<(int x); Msg& operator<<(unsigned x); Msg& operator<<(long x); Msg& operator<<(unsigned long x);
  Msg& operator<<(long long x); Msg& operator<<(unsigned long long x); Msg& operator<<(double x); Msg& operator<<(long double x); Msg& operator<<(float x);
  Msg& operator<<(signed char x) { return *this << (int)x; } Msg& operator<<(unsigned char x) { return *this << (int)x; } Msg& operator<<(short x) { return *this << (int)x; }
  template <class T> Msg& operator<<(const T& x) { return *this << show(x); }
  std::string t;
};
template <class G, class W> __attribute__((noinline)) void eq_msg(Msg& m, const char* e, const G& g, const W& w) { m << e << " is " << g << ", expected " << w << "; "; }
[[noreturn]] void fail(const char* key, const Msg& m);

#define VF_CHECK(key, cond, msgexpr)                                        \
  do { if (__builtin_expect(!(cond), 0)) { ::vf::Msg vf_m_; vf_m_ << #cond << ": " << msgexpr; ::vf::fail(key, vf_m_); } } while (0)

#define VF_EQ(key, got, want, msgexpr)                                      \
  do { auto&& vf_g_ = (got); auto&& vf_w_ = (want);                         \
    if (__builtin_expect(!(vf_g_ == vf_w_), 0)) { ::vf::Msg vf_m_; ::vf::eq_msg(vf_m_, #got, vf_g_, vf_w_); vf_m_ << msgexpr; ::vf::fail(key, vf_m_); } } while (0)

#define VF_HARNESS2(ID, MTOK, ONCE)                                         \
  static void vf_case_##ID(::vf::Src&);                                     \
  static ::vf::Harness vf_h_##ID = {#ID, vf_case_##ID, ONCE, MTOK, nullptr};\
  static struct VfReg##ID { VfReg##ID() { ::vf::reg(&vf_h_##ID); } } vf_reg_##ID; \
  static void vf_case_##ID(::vf::Src& s)
#define VF_HARNESS(ID) VF_HARNESS2(ID, true, nullptr)

}  // namespace vf
#endif
