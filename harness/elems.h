// Element types for container histories.
#ifndef VF_ELEMS_H
#define VF_ELEMS_H
#include <string>
#include <ostream>
#include <istream>
#include "vf.h"
// A value whose lifetime is monitored: every construction is matched by one
// destruction, and no dead or foreign object is ever read.
struct Tok {
  static long& live() { static thread_local long n = 0; return n; }
  int v; int tag; const Tok* self;
  enum { MAGIC = 0x5eed, DEAD = 0xdead };
  int magic;
  Tok(int v_ = 0, int tag_ = 0) : v(v_), tag(tag_), self(this), magic(MAGIC) { ++live(); }
  Tok(const Tok& o) : v(o.ok().v), tag(o.tag), self(this), magic(MAGIC) { ++live(); }
  Tok& operator=(const Tok& o) { ok(); o.ok(); v = o.v; tag = o.tag; return *this; }
  ~Tok() { ok(); magic = DEAD; self = nullptr; --live(); }
  const Tok& ok() const { if (magic != MAGIC || self != this) bad(); return *this; }
  [[noreturn]] static void bad() { fprintf(stderr, "runtime error: element used outside its lifetime\n"); abort(); }
  bool operator==(const Tok& o) const { return ok().v == o.ok().v; }
  bool operator!=(const Tok& o) const { return !(*this == o); }
  bool operator<(const Tok& o) const { return ok().v < o.ok().v; }
};
inline std::ostream& operator<<(std::ostream& o, const Tok& t) { return o << t.v << '#' << t.tag; }
// identical = equal in every respect (for stable/identity checks)
inline bool same(const Tok& a, const Tok& b) { return a.ok().v == b.ok().v && a.tag == b.tag; }
inline bool same(int a, int b) { return a == b; }
inline bool same(long long a, long long b) { return a == b; }
inline bool same(const std::string& a, const std::string& b) { return a == b; }
inline bool same(double a, double b) { return a == b; }

template <class T> struct Mk;
template <> struct Mk<int> { static int go(vf::Src& s, int spread) { return spread ? (int)s.range(-spread, spread) : (int)s.range(-2147483647 - 1, 2147483647); } };
template <> struct Mk<std::string> { static std::string go(vf::Src& s, int spread) { return spread ? s.str(2, "ab") : s.text(24); } };
template <> struct Mk<Tok> { static Tok go(vf::Src& s, int spread) { return Tok((int)(spread ? s.range(-spread, spread) : s.range(-1000000, 1000000)), (int)s.below(65536)); } };
template <> struct Mk<double> { static double go(vf::Src& s, int spread) { return spread ? (double)s.range(-spread, spread) : s.real(-1e12, 1e12); } };
#endif
