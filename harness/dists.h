// Construction of every sampler of the library from a decision stream, with the
// reference cumulative distribution functions (independent of the library).
#ifndef VF_DISTS_H
#define VF_DISTS_H
#include <algorithm>
#include <cmath>
#include <climits>
#include <memory>
#include <sstream>
#include <vector>
#include "random/BernoulliDistribution.h"
#include "random/BinomialDistribution.h"
#include "random/ChiSquaredDistribution.h"
#include "random/ExponentialDistribution.h"
#include "random/GammaDistribution.h"
#include "random/GeometricDistribution.h"
#include "random/NegativeBinomialDistribution.h"
#include "random/NormalDistribution.h"
#include "random/PoissonDistribution.h"
#include "random/Random.h"
#include "random/StudentTDistribution.h"
#include "random/UniformDistribution.h"
#include "random/UniformIntDistribution.h"
#include "random/random_functions.h"
#include "vf.h"

namespace vd {
using namespace cuhksz;

// ---------------------------------------------------------------- references
inline double lgam(double x) { int sg; return ::lgamma_r(x, &sg); }  // reentrant
inline double gammaP(double a, double x) {  // regularised lower incomplete gamma
  if (x <= 0) return 0;
  double lg = lgam(a);
  if (x < a + 1) {
    double sum = 1 / a, t = sum; for (int n = 1; n < 100000; ++n) { t *= x / (a + n); sum += t; if (t < sum * 1e-16) break; }
    return std::min(1.0, sum * std::exp(-x + a * std::log(x) - lg));
  }
  double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
  for (int i = 1; i < 100000; ++i) { double an = -i * (i - a); b += 2; d = an * d + b; if (std::fabs(d) < 1e-300) d = 1e-300; c = b + an / c; if (std::fabs(c) < 1e-300) c = 1e-300; d = 1 / d; double e = d * c; h *= e; if (std::fabs(e - 1) < 1e-15) break; }
  return std::max(0.0, 1 - std::exp(-x + a * std::log(x) - lg) * h);
}
inline double betacf(double a, double b, double x) {
  double qab = a + b, qap = a + 1, qam = a - 1, c = 1, d = 1 - qab * x / qap; if (std::fabs(d) < 1e-300) d = 1e-300; d = 1 / d; double h = d;
  for (int m = 1; m < 100000; ++m) {
    int m2 = 2 * m; double aa = m * (b - m) * x / ((qam + m2) * (a + m2));
    d = 1 + aa * d; if (std::fabs(d) < 1e-300) d = 1e-300; c = 1 + aa / c; if (std::fabs(c) < 1e-300) c = 1e-300; d = 1 / d; h *= d * c;
    aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
    d = 1 + aa * d; if (std::fabs(d) < 1e-300) d = 1e-300; c = 1 + aa / c; if (std::fabs(c) < 1e-300) c = 1e-300; d = 1 / d; double e = d * c; h *= e;
    if (std::fabs(e - 1) < 1e-15) break;
  }
  return h;
}
inline double betaI(double a, double b, double x) {
  if (x <= 0) return 0; if (x >= 1) return 1;
  double bt = std::exp(lgam(a + b) - lgam(a) - lgam(b) + a * std::log(x) + b * std::log1p(-x));
  return x < (a + 1) / (a + b + 2) ? bt * betacf(a, b, x) / a : 1 - bt * betacf(b, a, 1 - x) / b;
}

// ------------------------------------------------------------------ samplers
enum Kind { BERNOULLI, BINOMIAL, NEGBIN, GEOMETRIC, POISSON, UNIFORM, UNIFORMINT, NORMAL, GAMMA, EXPONENTIAL, CHI2, STUDENT, NKINDS };
static const char* const kindName[] = {"Bernoulli", "Binomial", "NegativeBinomial", "Geometric", "Poisson", "Uniform", "UniformInt", "Normal", "Gamma", "Exponential", "ChiSquared", "StudentT"};

struct Spec {
  int kind; double a = 0, b = 0; int i = 0, j = 0;
  std::string show() const { std::ostringstream o; o.precision(17); o << kindName[kind] << "(" << i << "," << j << "," << a << "," << b << ")"; return o.str(); }
  bool discrete() const { return kind <= POISSON || kind == UNIFORMINT; }
  double cost() const {  // rough inner-loop steps of one draw
    switch (kind) { case BINOMIAL: return 4 + i * a; case NEGBIN: return 4 + i * (1 - a) / a; case GEOMETRIC: return 4 + (1 - a) / a; case POISSON: return 4 + a;
      case GAMMA: return 4 + a; case CHI2: return 4 + a / 2; case STUDENT: return 12 + a / 2; default: return 4; }
  }
  double cdf(double x) const {  // P(X <= x)
    switch (kind) {
      case BERNOULLI: return x < 0 ? 0 : x < 1 ? 1 - a : 1;
      case BINOMIAL: if (x < 0) return 0; if (x >= i) return 1; if (a <= 0) return 1; if (a >= 1) return 0; return betaI(i - std::floor(x), std::floor(x) + 1, 1 - a);
      case NEGBIN: case GEOMETRIC: { if (x < 0) return 0; if (a >= 1) return 1; double r = kind == GEOMETRIC ? 1 : i; return betaI(r, std::floor(x) + 1, a); }
      case POISSON: return x < 0 ? 0 : 1 - gammaP(std::floor(x) + 1, a);
      case UNIFORM: return x <= a ? 0 : x >= b ? 1 : (x - a) / (b - a);
      case UNIFORMINT: { double lo = i, hi = j, f = std::floor(x); return f < lo ? 0 : f >= hi - 1 ? 1 : (f - lo + 1) / (hi - lo); }
      case NORMAL: return 0.5 * std::erfc(-(x - a) / (b * std::sqrt(2.0)));
      case GAMMA: return gammaP(a, x / b);
      case EXPONENTIAL: return x <= 0 ? 0 : -std::expm1(-a * x);
      case CHI2: return gammaP(a / 2, x / 2);
      case STUDENT: { double t = 0.5 * betaI(a / 2, 0.5, a / (a + x * x)); return x > 0 ? 1 - t : t; }
    }
    return 0;
  }
  bool inSupport(double x) const {
    if (!(x == x) || std::isinf(x)) return false;
    switch (kind) {
      case BERNOULLI: return x == 0 ? a < 1 : x == 1 && a > 0;
      case BINOMIAL: return x >= 0 && x <= i && (a > 0 || x == 0) && (a < 1 || x == i);
      case NEGBIN: case GEOMETRIC: return x >= 0 && (a < 1 || x == 0);
      case POISSON: return x >= 0;
      case UNIFORM: return a == b ? x == a : x >= a && x < b;
      case UNIFORMINT: return x >= i && x < j;
      case GAMMA: case EXPONENTIAL: case CHI2: return x >= 0;
      default: return true;
    }
  }
};

// Uniform interface over Distribution<bool/int/double>.
struct Sampler {
  virtual ~Sampler() {}
  virtual double next() = 0;
  virtual void rebind(Random& r) = 0;
  virtual std::string params() = 0;
};
template <class D> struct SamplerT : Sampler {
  std::unique_ptr<D> d; Spec sp;
  SamplerT(D* p, const Spec& s) : d(p), sp(s) {}
  double next() override { return (double)d->next(); }
  void rebind(Random& r) override { d->setRandomGenerator(r); }
  std::string params() override { return check(d.get(), sp); }
  static bool same(double x, double y) { return std::fabs(x - y) <= 1e-15 * std::fabs(y); }
  static std::string bad(double x, double y) { return same(x, y) ? "" : vf::show(x) + " instead of " + vf::show(y) + "; "; }
  static std::string check(BernoulliDistribution* x, const Spec& s) { return bad(x->p(), s.a); }
  static std::string check(BinomialDistribution* x, const Spec& s) { return bad(x->n(), s.i) + bad(x->p(), s.a); }
  static std::string check(GeometricDistribution* x, const Spec& s) { return bad(x->p(), s.a); }
  static std::string check(NegativeBinomialDistribution* x, const Spec& s) { return bad(x->r(), s.i) + bad(x->p(), s.a); }
  static std::string check(PoissonDistribution* x, const Spec& s) { return bad(x->lambda(), s.a); }
  static std::string check(UniformDistribution* x, const Spec& s) { return bad(x->min(), s.a) + bad(x->max(), s.b); }
  static std::string check(UniformIntDistribution* x, const Spec& s) { return bad(x->min(), s.i) + bad(x->max(), s.j); }
  static std::string check(NormalDistribution* x, const Spec& s) { return bad(x->mean(), s.a) + bad(x->stddev(), s.b); }
  static std::string check(ExponentialDistribution* x, const Spec& s) { return bad(x->lambda(), s.a); }
  static std::string check(ChiSquaredDistribution* x, const Spec& s) { return bad(x->r(), s.a); }
  static std::string check(GammaDistribution* x, const Spec& s) { return bad(x->k(), s.a) + bad(x->theta(), s.b); }
  static std::string check(StudentTDistribution* x, const Spec& s) { return bad(x->r(), s.a); }
};
template <class D> std::unique_ptr<Sampler> wrap(D* d, const Spec& s) { return std::unique_ptr<Sampler>(new SamplerT<D>(d, s)); }
inline std::unique_ptr<Sampler> make(const Spec& s, Random& r) {
  switch (s.kind) {
    case BERNOULLI: return wrap(new BernoulliDistribution(r, s.a), s);
    case BINOMIAL: return wrap(new BinomialDistribution(r, s.i, s.a), s);
    case NEGBIN: return wrap(new NegativeBinomialDistribution(r, s.i, s.a), s);
    case GEOMETRIC: return wrap(new GeometricDistribution(r, s.a), s);
    case POISSON: return wrap(new PoissonDistribution(r, s.a), s);
    case UNIFORM: return s.a == 0 ? wrap(new UniformDistribution(r, s.b), s) : wrap(new UniformDistribution(r, s.a, s.b), s);
    case UNIFORMINT: return s.i == 0 ? wrap(new UniformIntDistribution(r, s.j), s) : wrap(new UniformIntDistribution(r, s.i, s.j), s);
    case NORMAL: return wrap(new NormalDistribution(r, s.a, s.b), s);
    case GAMMA: return wrap(new GammaDistribution(r, s.a, s.b), s);
    case EXPONENTIAL: return wrap(new ExponentialDistribution(r, s.a), s);
    case CHI2: return wrap(new ChiSquaredDistribution(r, s.a), s);
    default: return wrap(new StudentTDistribution(r, s.a), s);
  }
}
inline std::unique_ptr<Sampler> makeOwn(const Spec& s) {
  switch (s.kind) {
    case BERNOULLI: return wrap(new BernoulliDistribution(s.a), s);
    case BINOMIAL: return wrap(new BinomialDistribution(s.i, s.a), s);
    case NEGBIN: return wrap(new NegativeBinomialDistribution(s.i, s.a), s);
    case GEOMETRIC: return wrap(new GeometricDistribution(s.a), s);
    case POISSON: return wrap(new PoissonDistribution(s.a), s);
    case UNIFORM: return s.a == 0 ? wrap(new UniformDistribution(s.b), s) : wrap(new UniformDistribution(s.a, s.b), s);
    case UNIFORMINT: return s.i == 0 ? wrap(new UniformIntDistribution(s.j), s) : wrap(new UniformIntDistribution(s.i, s.j), s);
    case NORMAL: return wrap(new NormalDistribution(s.a, s.b), s);
    case GAMMA: return wrap(new GammaDistribution(s.a, s.b), s);
    case EXPONENTIAL: return wrap(new ExponentialDistribution(s.a), s);
    case CHI2: return wrap(new ChiSquaredDistribution(s.a), s);
    default: return wrap(new StudentTDistribution(s.a), s);
  }
}

inline double prob(vf::Src& s, bool zero) {  // a probability
  switch (s.below(8)) {
    case 0: return zero ? 0 : 1;
    case 1: return 1;
    case 2: return 0.5;
    case 3: return std::max(0.002, s.unit() * 0.05);
    case 4: return 1 - s.unit() * 0.05;
    case 5: return (1 + s.below(9)) / 10.0;
    default: return 0.01 + 0.98 * s.unit();
  }
}
inline double posReal(vf::Src& s, double lo, double hi) {  // log-uniform, or small integers and halves
  if (s.chance(1, 3)) { double k = (double)s.uni(1, 12); if (k >= lo && k <= hi) return k; }
  if (s.chance(1, 4)) { double k = 0.5 * (double)s.uni(1, 60); if (k >= lo && k <= hi) return k; }
  return lo * std::exp(s.unit() * std::log(hi / lo));
}
inline Spec spec(vf::Src& s, bool wide) {
  Spec sp; sp.kind = (int)s.below(NKINDS);
  switch (sp.kind) {
    case BERNOULLI: sp.a = prob(s, true); break;
    case BINOMIAL: sp.i = s.below(300) == 299 ? (int)s.uni(32000, 70000) : s.chance(1, 3) ? (int)s.uni(0, 33) : s.chance(1, 3) ? (int)s.uni(30, 70) : s.chance(1, 4) ? (int)s.uni(900, 2500) : s.size(300); sp.a = prob(s, true); break;
    case NEGBIN: sp.a = prob(s, false); sp.i = s.chance(1, 3) ? (int)s.uni(1, 40) : s.chance(1, 6) && sp.a > 0.2 ? (int)s.uni(700, 3000) : 1 + s.size(200); if (sp.a < 0.1 && sp.i > 50) sp.i = 1 + sp.i % 50; break;
    case GEOMETRIC: sp.a = prob(s, false); break;
    case POISSON: if (s.below(300) == 299) { sp.a = s.real(30000, 70000); break; } sp.a = posReal(s, 1e-3, s.chance(1, 5) ? 5000 : 60); break;
    case UNIFORM: sp.a = s.chance(1, 4) ? 0 : s.real(-1e6, 1e6); sp.b = sp.a + (s.chance(1, 3) ? 1 : posReal(s, 1e-6, 1e6)); if (wide && s.chance(1, 8)) sp.b = sp.a; else if (wide && s.chance(1, 8)) sp.b = std::nextafter(sp.a, 1e300); break;
    case UNIFORMINT: sp.i = s.chance(1, 4) ? 0 : (int)s.range(INT_MIN, INT_MAX - 1); sp.j = s.chance(1, 2) ? (int)std::min<long long>(INT_MAX, (long long)sp.i + s.uni(1, 40)) : (int)s.range((long long)sp.i + 1, INT_MAX); break;
    case NORMAL: sp.a = s.chance(1, 3) ? 0 : s.real(-1e3, 1e3); sp.b = s.chance(1, 3) ? 1 : posReal(s, 1e-3, 1e3); break;
    case GAMMA: sp.a = posReal(s, 0.1, 60); if (s.chance(1, 4)) { double d = 0.03 + 0.05 * s.unit(); sp.a = s.chance(1, 2) ? s.below(4) + d : 1 + s.below(4) - d; } sp.b = posReal(s, 1e-3, 1e3); break;
    case EXPONENTIAL: sp.a = posReal(s, 1e-3, 1e3); break;
    case CHI2: sp.a = posReal(s, 0.2, 100); break;
    case STUDENT: sp.a = posReal(s, 0.3, 100); break;
  }
  return sp;
}
}  // namespace vd
#endif
