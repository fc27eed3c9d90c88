// C26: every random value lies in the documented range / support, every value of a
// small range occurs, and samplers report the parameters they were given.
#include <set>
#include "dists.h"
using namespace vd;

static int someSeed(vf::Src& s) { return (int)s.range(INT_MIN, INT_MAX); }

static void ints(vf::Src& s, Random& r, bool global) {
  int form = (int)s.below(3), lo = 0, hi = 0;
  if (form == 0) { lo = (int)s.range(INT_MIN, INT_MAX - 1); hi = s.chance(1, 2) ? (int)std::min<long long>(INT_MAX, (long long)lo + s.uni(1, 20)) : (int)s.range((long long)lo + 1, INT_MAX); }
  if (form == 1) { lo = 0; hi = s.chance(1, 2) ? (int)s.uni(1, 20) : (int)s.range(1, INT_MAX); }
  long long width = (long long)hi - lo; int n = form < 2 && width <= 20 ? 900 : (int)s.uni(20, 200);
  std::vector<int> seen(width > 0 && width <= 20 ? width : 0);
  long long pos = 0, odd = 0, top = 0;
  for (int i = 0; i < n; ++i) {
    int x = form == 0 ? (global ? randomInt(lo, hi) : r.nextInt(lo, hi)) : form == 1 ? (global ? randomInt(hi) : r.nextInt(hi)) : (global ? randomInt() : r.nextInt());
    if (form < 2) { VF_CHECK("C26:int-range", x >= lo && x < hi, "random int " << x << " outside [" << lo << ", " << hi << ")"); if (!seen.empty()) seen[x - lo] = 1; }
    pos += x >= 0; odd += x & 1; top += (x > INT_MAX / 2 || x < INT_MIN / 2);
    vf::note("random values observed");
  }
  if (!seen.empty()) for (int k = 0; k < (int)seen.size(); ++k) VF_CHECK("C26:int-coverage", seen[k], "value " << lo + k << " of [" << lo << ", " << hi << ") never occurred in " << n << " draws");
  if (form == 2 && n >= 100) VF_CHECK("C26:int-all", pos > 0 && pos < n && odd > 0 && odd < n && top > 0, "unrestricted random ints do not reach all of int: " << pos << " non-negative, " << odd << " odd, " << top << " large of " << n);
  vf::sig((uint64_t)form); vf::sig((uint64_t)lo); vf::sig((uint64_t)hi);
}
static double anyDouble(vf::Src& s) {
  switch (s.below(5)) { case 0: return s.real(-10, 10); case 1: return s.real(-1e6, 1e6); case 2: return std::ldexp(s.unit() - 0.5, (int)s.uni(-300, 300)); case 3: return s.chance(1, 4) ? (2 * s.unit() - 1) * 1.7e308 : s.real(-1, 1); default: return (double)s.uni(-20, 20); }
}
static void doubles(vf::Src& s, Random& r, bool global) {
  int form = (int)s.below(3); double lo = 0, hi = 1;
  if (form == 0) { lo = anyDouble(s); switch (s.below(4)) { case 0: hi = lo; break; case 1: { hi = lo; for (uint64_t k = 1 + s.below(4); k; --k) hi = std::nextafter(hi, INFINITY); break; } case 2: hi = std::min(1.7e308, lo + std::fabs(anyDouble(s))); break; default: hi = anyDouble(s); if (hi < lo) std::swap(lo, hi); } }
  if (form == 1) { lo = 0; hi = s.chance(1, 8) ? 0 : std::fabs(anyDouble(s)); if (s.chance(1, 16)) hi = 5e-324; }
  int n = (int)s.uni(20, 300); bool low = false, high = false, mid = false;
  for (int i = 0; i < n; ++i) {
    double x = form == 0 ? (global ? randomDouble(lo, hi) : r.nextDouble(lo, hi)) : form == 1 ? (global ? randomDouble(hi) : r.nextDouble(hi)) : (global ? randomDouble() : r.nextDouble());
    VF_CHECK("C26:double-range", lo == hi ? x == lo : x >= lo && x < hi, "random double " << x << " outside [" << lo << ", " << hi << ")");
    double f = (x / 2 - lo / 2) / (hi / 2 - lo / 2); low |= f < 0.25; high |= f > 0.75; mid |= f != 0;
    vf::note("random values observed");
  }
  if (n >= 200 && hi / 2 - lo / 2 > 1e-6 * std::max(std::fabs(lo), std::fabs(hi)) && hi - lo > 1e-290) VF_CHECK("C26:double-coverage", low && high && mid, "draws do not reach both ends of [" << lo << ", " << hi << ")");
  vf::sig((uint64_t)form); vf::sig(vf::show(lo)); vf::sig(vf::show(hi));
}
static void samplers(vf::Src& s, Random& r) {
  Spec sp = spec(s, true); bool own = s.chance(1, 4);
  std::unique_ptr<Sampler> d = own ? makeOwn(sp) : make(sp, r);
  Random other(someSeed(s));
  std::string p = d->params(); VF_CHECK("C26:parameters", p.empty(), sp.show() << " reports parameters " << p);
  int n = (int)std::min(300.0, 60000 / sp.cost()); if (n < 5) n = 5;
  for (int i = 0; i < n; ++i) {
    if (s.chance(1, 40)) { d->rebind(s.chance(1, 2) ? r : other); vf::note("generators exchanged"); }
    double x = d->next();
    VF_CHECK("C26:support", sp.inSupport(x), sp.show() << " produced " << x);
    vf::note("sampler values observed");
  }
  p = d->params(); VF_CHECK("C26:parameters", p.empty(), sp.show() << " reports parameters " << p << " after use");
  vf::note((std::string("sampler: ") + kindName[sp.kind]).c_str());
  vf::sig(sp.show());
  vf::sample([&] { return sp.show() + " " + std::to_string(n) + " draws, last generator rebound or own=" + std::to_string(own); });
}
// ------------------------------------------------- extreme raw engine outputs
// A generator may produce any raw value at any time, also those that random
// workloads never meet (probability 2^-54 and less per draw).
#ifdef VF_SCRIPTED_ENGINE
struct Script {
  std::vector<uint64_t> v; uint64_t before;
  explicit Script(std::vector<uint64_t> x) : v(std::move(x)) { vf_script::State& t = vf_script::state(); before = t.served; t.at = v.data(); t.end = v.data() + v.size(); }
  uint64_t served() const { return vf_script::state().served - before; }
  ~Script() { vf_script::State& t = vf_script::state(); t.at = t.end = nullptr; }
};
static uint64_t extreme(vf::Src& s) {
  switch (s.below(9)) {
    case 0: return 0;
    case 1: return ~0ULL;
    case 2: return s.below(4);
    case 3: return ~0ULL - (1ULL << s.below(64));
    case 4: return 1ULL << s.below(64);
    case 5: return (1ULL << s.below(64)) - 1;
    case 6: return (1ULL << 63) + s.uni(-2, 2) * (1LL << s.below(13));
    case 7: return ~0ULL - s.below(5000);
    default: return s.next64();
  }
}
static std::vector<uint64_t> extremes(vf::Src& s) {
  std::vector<uint64_t> v((size_t)s.uni(1, 12)); bool same = s.chance(1, 3); uint64_t x = extreme(s);
  for (auto& e : v) e = same ? x : extreme(s);
  return v;
}
static void scriptedSampler(vf::Src& s, Random& r) {
  Spec sp = spec(s, true); if (sp.cost() > 8000) return;
  std::unique_ptr<Sampler> d = make(sp, r);
  for (int k = 0; k < 6; ++k) {
    Script sc(extremes(s)); std::string shown = vf::show_seq(sc.v);
    for (int i = 0; i < 8; ++i) { double x = d->next(); VF_CHECK("C26:support", sp.inSupport(x), sp.show() << " produced " << x << " when the engine produced " << shown << ", draw " << i); }
    vf::note("extreme engine outputs", sc.served());
  }
  vf::sig(sp.show());
}
static void scriptedRange(vf::Src& s, Random& r) {
  int form = (int)s.below(3), lo = 0, hi = 0; double a = anyDouble(s), b = anyDouble(s); if (b < a) std::swap(a, b);
  if (s.chance(1, 3)) { b = a; for (uint64_t k = 1 + s.below(4); k; --k) b = std::nextafter(b, INFINITY); }
  if (s.chance(1, 8)) { a = -b; if (b < a) std::swap(a, b); }
  if (form == 0) { lo = (int)s.range(INT_MIN, INT_MAX - 1); hi = (int)s.range((long long)lo + 1, INT_MAX); } else if (form == 1) hi = (int)s.range(1, INT_MAX); else { lo = INT_MIN; }
  long long top = form == 2 ? INT_MAX : (long long)hi - 1; uint64_t w = (uint64_t)(top - lo) + 1;
  // raw outputs under which any usual mapping (remainder, scaling, high or low half, rejection) meets both ends
  std::vector<uint64_t> raw;
  uint64_t last = (uint64_t)(-1) / w * w;  // first raw value that rejection would discard
  for (uint64_t x : {(uint64_t)0, (uint64_t)-1, w - 1, w, (w - 1) << 32, (w - 1) << 31, w << 32, last, last - 1, last - w, (uint64_t)(unsigned)lo, (uint64_t)(unsigned)top, (uint64_t)(unsigned)lo << 32, (uint64_t)(unsigned)top << 32, (uint64_t)0x7fffffff, (uint64_t)0xffffffff, (uint64_t)0x80000000, (uint64_t)1 << 63, (uint64_t)INT64_MAX}) raw.push_back(x);
  for (int k = 0; k < 64; k += 4) { raw.push_back(~0ULL - (1ULL << k)); raw.push_back(1ULL << k); }
  bool bottomSeen = false, topSeen = false, used = true;
  for (uint64_t x : raw) {
    Script sc({x, x, x}); int v = form == 0 ? r.nextInt(lo, hi) : form == 1 ? r.nextInt(hi) : r.nextInt();
    used = used && sc.served();
    VF_CHECK("C26:int-range", v >= lo && v <= top, "random int " << v << " outside [" << lo << ", " << top << "] when the engine produced " << x);
    bottomSeen |= v == lo; topSeen |= v == top;
  }
  if (used) VF_CHECK("C26:int-ends", bottomSeen && topSeen, "random ints of [" << lo << ", " << top << "] never reach " << (bottomSeen ? "the upper" : "the lower") << " end, whatever the engine produces");
  double least = INFINITY, most = -INFINITY; used = true;
  for (uint64_t x : raw) {
    Script sc({x, x, x}); double v = r.nextDouble(a, b); used = used && sc.served();
    VF_CHECK("C26:double-range", a == b ? v == a : v >= a && v < b, "random double " << v << " outside [" << a << ", " << b << ") when the engine produced " << x);
    least = std::min(least, v); most = std::max(most, v);
    { Script sd({x, x, x}); double u = r.nextDouble(); VF_CHECK("C26:double-range", u >= 0 && u < 1, "random double " << u << " outside [0, 1) when the engine produced " << x); }
  }
  double tol = 1e-9 * (b / 2 - a / 2) + 4e-16 * std::max(std::fabs(a), std::fabs(b)) + 1e-300;
  if (used) VF_CHECK("C26:double-ends", least / 2 - a / 2 <= tol && b / 2 - most / 2 <= tol, "random doubles of [" << a << ", " << b << ") stay within [" << least << ", " << most << "], whatever the engine produces");
  vf::note("ranges with extreme engine outputs");
  vf::sig((uint64_t)lo); vf::sig((uint64_t)hi); vf::sig(vf::show(a));
}
static void scripted(vf::Src& s, Random& r) { if (s.chance(2, 3)) scriptedSampler(s, r); else scriptedRange(s, r); }
#else
static void scripted(vf::Src&, Random&) {}
#endif
VF_HARNESS2(C26, true, nullptr) {
  Random r(someSeed(s)); bool global = !vf::mt() && s.chance(1, 6);
  int steps = 1 + (int)s.below(4);
  for (int i = 0; i < steps; ++i) {
    switch (s.below(7)) {
      case 0: ints(s, r, global); break;
      case 1: doubles(s, r, global); break;
      case 2: { int t = 0; for (int k = 0; k < 200; ++k) t += global ? randomBool() : r.nextBool(); VF_CHECK("C26:bool", t > 0 && t < 200, t << " of 200 random booleans were true"); vf::sig((uint64_t)t); break; }
      case 6: scripted(s, r); break;
      default: samplers(s, r);
    }
    if (s.chance(1, 4)) r.setSeed(someSeed(s));
  }
  vf::nontrivial();
}
