// C28: samples follow the documented law.  Each case draws many values and compares the
// empirical distribution with the exact cumulative distribution function:
//  - whole distribution: Dvoretzky-Kiefer-Wolfowitz bound,
//  - cells (also far tails): Bernstein bound on each count,
//  - serial independence: cells of consecutive pairs, Bernstein bound.
// A case alarms only when the first sample violates a bound of level 1e-3 AND a second, fresh
// sample four times as large violates the same statistic at level 1e-10.
#include "dists.h"
using namespace vd;

namespace {
struct Source { std::unique_ptr<Sampler> d; std::unique_ptr<Random> r; int form = -1; Spec sp; bool global = false;
  double next() {
    if (d) return d->next();
    switch (form) {
      case 0: return global ? randomInt(sp.i, sp.j) : r->nextInt(sp.i, sp.j);
      case 1: return global ? randomDouble(sp.a, sp.b) : r->nextDouble(sp.a, sp.b);
      case 2: return global ? randomDouble() : r->nextDouble();
      case 3: return global ? randomBool() : r->nextBool();
      case 4: return global ? randomInt() : r->nextInt();
      case 5: return global ? randomInt(sp.j) : r->nextInt(sp.j);
      default: return global ? randomDouble(sp.b) : r->nextDouble(sp.b);
    }
  }
};
// Chernoff bound: P(count this far from nq on its side) <= exp(-n KL(count/n || q)); violated at level alpha (both sides)?
bool chernoff(double count, double n, double q, double logAlpha) {
  if (q <= 0 || q >= 1) return count != (q <= 0 ? 0 : n);
  double p = count / n, kl = (p > 0 ? p * std::log(p / q) : 0) + (p < 1 ? (1 - p) * std::log1p((q - p) / (1 - q)) : 0);
  return std::log(2.0) - n * kl < logAlpha;
}
struct Finding { std::string what; };
// Returns a description of the first statistic beyond its bound, "" if none.
std::string judge(const Spec& sp, const std::vector<double>& v, double alpha) {
  double n = (double)v.size();
  std::vector<double> s(v); std::sort(s.begin(), s.end());
  double lA = std::log(alpha);
  double eps = std::sqrt((std::log(2.0) - lA) / (2 * n));
  // reference CDF at a grid of order statistics (every value for small samples)
  size_t step = std::max<size_t>(1, s.size() / 400);
  for (size_t i = 0; i < s.size(); i += step) {
    double x = s[i]; double le = (double)(std::upper_bound(s.begin(), s.end(), x) - s.begin()) / n, lt = (double)(std::lower_bound(s.begin(), s.end(), x) - s.begin()) / n;
    double F = sp.cdf(x), Fm = sp.discrete() ? sp.cdf(x - 1) : F;
    if (std::fabs(le - F) > eps + 1e-9) return "P(X<=" + vf::show(x) + ") observed " + vf::show(le) + " expected " + vf::show(F);
    if (std::fabs(lt - Fm) > eps + 1e-9) return "P(X<" + vf::show(x) + ") observed " + vf::show(lt) + " expected " + vf::show(Fm);
  }
  // cells of the probability scale, finer towards the tails
  static const double cut[] = {1e-4, 3e-4, 1e-3, 3e-3, 0.01, 0.03, 0.06, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.94, 0.97, 0.99, 0.997, 0.999, 0.9997, 0.9999};
  const int NC = sizeof cut / sizeof *cut; double la = lA - std::log(3.0 * NC + 40);
  if (!sp.discrete()) {
    std::vector<double> u; u.reserve(s.size()); size_t k0 = 0;
    // F is monotone: find the boundary of each cell in the sorted sample by bisection
    double prevq = 0;
    for (int c = 0; c <= NC; ++c) {
      double q = c < NC ? cut[c] : 1; size_t lo = k0, hi = s.size();
      if (c < NC) { while (lo < hi) { size_t m = (lo + hi) / 2; if (sp.cdf(s[m]) <= q) lo = m + 1; else hi = m; } } else lo = s.size();
      double cnt = (double)(lo - k0), p = q - prevq;
      if (chernoff(cnt, n, p, la)) return "cell (" + vf::show(prevq) + ", " + vf::show(q) + "] of the probability scale holds " + vf::show(cnt) + " of " + vf::show(n) + " samples";
      vf::note("cells compared"); k0 = lo; prevq = q;
    }
  } else {
    // each observed value with its own probability, plus both tails beyond a few cut points
    size_t i = 0; int cells = 0;
    std::vector<std::pair<double, double>> seen;
    while (i < s.size()) { size_t j = std::upper_bound(s.begin() + i, s.end(), s[i]) - s.begin(); seen.push_back({s[i], (double)(j - i)}); i = j; }
    if (seen.size() <= 4000) {
      double l2 = lA - std::log(4.0 * seen.size() + 10);
      double cum = 0;
      for (auto& c : seen) { double p = sp.cdf(c.first) - sp.cdf(c.first - 1); if (p < 0) p = 0; if (p > 1e-13 ? chernoff(c.second, n, p, l2) : c.second > 3) return "value " + vf::show(c.first) + " occurred " + vf::show(c.second) + " times in " + vf::show(n) + ", probability " + vf::show(p);
        double below = sp.cdf(c.first - 1); if (below > 1e-13 && below < 1 - 1e-13 && chernoff(cum, n, below, l2)) return "values below " + vf::show(c.first) + " occurred " + vf::show(cum) + " times in " + vf::show(n) + ", probability " + vf::show(below);
        cum += c.second; ++cells; vf::note("cells compared"); }
      // values that never occurred although they should: largest gap inside the range
      for (size_t k = 1; k < seen.size(); ++k) if (seen[k].first > seen[k - 1].first + 1) { double p = sp.cdf(seen[k].first - 1) - sp.cdf(seen[k - 1].first); if (p > 1e-13 && chernoff(0, n, p, l2)) return "no value between " + vf::show(seen[k - 1].first) + " and " + vf::show(seen[k].first) + ", probability " + vf::show(p); }
    }
  }
  // serial independence: quartile cells of (x0,x1), (x2,x3), ... and of (x1,x2), (x3,x4), ...
  if (!sp.discrete() || sp.kind == BERNOULLI || s.size() > 0) {
    double q[3]; double b[3]; for (int k = 0; k < 3; ++k) b[k] = s[std::min(s.size() - 1, (size_t)(s.size() * (k + 1) / 4))];
    for (int k = 0; k < 3; ++k) q[k] = sp.cdf(b[k]);
    double pc[4] = {q[0], q[1] - q[0], q[2] - q[1], 1 - q[2]};
    auto cell = [&](double x) { return x <= b[0] ? 0 : x <= b[1] ? 1 : x <= b[2] ? 2 : 3; };
    // the cell edges come from the sample itself: the union bound over edges is covered by the wide level below
    double l3 = lA - 30;
    for (int lag = 1; lag <= 3; ++lag) for (int off = 0; off < lag + 1; ++off) {
      double cnt[4][4] = {{0}}; double m = 0;
      for (size_t i = off; i + lag < v.size(); i += lag + 1) { cnt[cell(v[i])][cell(v[i + lag])] += 1; m += 1; }
      for (int a = 0; a < 4; ++a) for (int c = 0; c < 4; ++c) { double p = pc[a] * pc[c]; if (p > 1e-12 && p < 1 - 1e-12 && chernoff(cnt[a][c], m, p, l3)) return "values at distance " + std::to_string(lag) + " are not independent: quartile pair (" + std::to_string(a) + "," + std::to_string(c) + ") occurred " + vf::show(cnt[a][c]) + " times in " + vf::show(m) + ", expected " + vf::show(m * p); vf::note("pair cells compared"); }
    }
  }
  return "";
}
// Far tails: a long stream counted against fixed points of the law (down to 1e-6 on either side); nothing is stored.
struct Tail { double x, q; bool up; };
std::vector<Tail> tails(const Spec& sp) {
  std::vector<Tail> r; static const double qs[] = {1e-6, 4e-6, 1.5e-5, 5e-5, 2e-4, 1e-3, 1e-2, 0.1, 0.3};
  for (double q : qs) for (int up = 0; up < 2; ++up) {
    double want = up ? 1 - q : q, lo = -1, hi = 1; while (sp.cdf(lo) > want && lo > -1e200) lo *= 4; while (sp.cdf(hi) < want && hi < 1e200) hi *= 4;
    for (int k = 0; k < 200 && lo < hi; ++k) { double m = lo + (hi - lo) / 2; if (m == lo || m == hi) break; if (sp.cdf(m) < want) lo = m; else hi = m; }
    double x = sp.discrete() ? std::floor(hi) : hi, F = sp.cdf(x), p = up ? 1 - F : F; if (p > 1e-7 && p < 0.9) r.push_back({x, p, up == 1});
  }
  return r;
}
std::string judgeTails(Source& o, double n, const std::vector<Tail>& ts, double alpha) {
  std::vector<double> c(ts.size(), 0); double lo = 1e308, hi = -1e308;
  for (double i = 0, left = 1e5; i < n; ++i) { if (--left < 0) { left = 1e5; vf::progress(); } double v = o.next(); if (v < lo) lo = v; if (v > hi) hi = v; for (size_t k = 0; k < ts.size(); ++k) c[k] += ts[k].up ? v > ts[k].x : v <= ts[k].x; }
  VF_CHECK("C28:support", o.sp.inSupport(lo) && o.sp.inSupport(hi), o.sp.show() << " produced values from " << lo << " to " << hi);
  for (size_t k = 0; k < ts.size(); ++k) { vf::note("tail counts compared"); if (chernoff(c[k], n, ts[k].q, std::log(alpha) - std::log(2.0 * ts.size()))) return std::string("values ") + (ts[k].up ? "above " : "up to ") + vf::show(ts[k].x) + " occurred " + vf::show(c[k]) + " times in " + vf::show(n) + ", expected " + vf::show(n * ts[k].q); }
  return "";
}
Source source(vf::Src& s) {
  Source o; o.r.reset(new Random((int)s.range(INT_MIN, INT_MAX)));
  if (s.chance(1, 5)) {
    o.form = (int)s.below(7); Spec& p = o.sp;
    switch (o.form) {
      case 0: p.kind = UNIFORMINT; p.i = (int)s.range(INT_MIN, INT_MAX - 1); p.j = s.chance(1, 2) ? (int)std::min<long long>(INT_MAX, (long long)p.i + s.uni(2, 60)) : (int)s.range((long long)p.i + 1, INT_MAX); break;
      case 1: p.kind = UNIFORM; p.a = s.real(-1e3, 1e3); p.b = p.a + posReal(s, 1e-3, 1e6); break;
      case 2: p.kind = UNIFORM; p.a = 0; p.b = 1; break;
      case 3: p.kind = BERNOULLI; p.a = 0.5; break;
      case 4: p.kind = UNIFORM; p.a = -2147483648.0; p.b = 2147483648.0; break;
      case 5: p.kind = UNIFORMINT; p.i = 0; p.j = s.chance(1, 2) ? (int)s.uni(1, 60) : (int)s.range(1, INT_MAX); break;
      default: p.kind = UNIFORM; p.a = 0; p.b = posReal(s, 1e-3, 1e6);
    }
    o.global = false;
  } else {
    o.sp = spec(s, false);
    o.d = make(o.sp, *o.r);
  }
  return o;
}
// Long streams of fixed parameter sets: the edges of the splitting and rejection schemes samplers use.
void deep() {
  struct { int kind; double a, b; int i; double n; } list[] = {{NORMAL, 0, 1, 0, 1.5e7}, {NEGBIN, 0.5, 0, 835, 3e5}, {NEGBIN, 0.5, 0, 1667, 2e5}, {NEGBIN, 0.9, 0, 7001, 2e5}, {POISSON, 499.75, 0, 0, 3e5}, {POISSON, 1500.5, 0, 0, 2e5}, {BINOMIAL, 0.5, 0, 1100, 3e5}, {GAMMA, 0.035, 1, 0, 1e6}, {GAMMA, 0.93, 2, 0, 1e6}, {GAMMA, 1.04, 1, 0, 1e6}, {GAMMA, 0.5, 1, 0, 2e6}, {GAMMA, 2.5, 1, 0, 2e6}, {EXPONENTIAL, 1, 0, 0, 1e7}, {STUDENT, 3, 0, 0, 1e6}};
  int seed = (int)(vf::seed() * 7919 + 13);
  for (auto& e : list) {
    Source o; o.r.reset(new Random(seed++)); o.sp.kind = e.kind; o.sp.a = e.a; o.sp.b = e.b; o.sp.i = e.i; o.d = make(o.sp, *o.r);
    double n = e.n * (vf::thorough() ? 4 : 1); std::vector<Tail> ts = tails(o.sp);
    std::string bad = judgeTails(o, n, ts, 1e-3); if (!bad.empty()) { std::string again = judgeTails(o, 4 * n, ts, 1e-10); VF_CHECK("C28:tail", again.empty(), o.sp.show() << ": " << bad << "; confirmed by a fresh sample: " << again); }
    vf::note("values streamed", (uint64_t)n);
  }
}
}  // namespace

VF_HARNESS2(C28, true, deep) {
  Source o = source(s);
  if (!vf::mt() && s.below(30) == 29) {
    double n = std::min(vf::thorough() ? 8e6 : 2.5e6, (vf::thorough() ? 8e7 : 2e7) / o.sp.cost()); std::vector<Tail> ts = tails(o.sp);
    std::string bad = judgeTails(o, n, ts, 1e-3); if (!bad.empty()) { std::string again = judgeTails(o, 4 * n, ts, 1e-10); VF_CHECK("C28:tail", again.empty(), o.sp.show() << (o.d ? "" : " (generator)") << ": " << bad << "; confirmed by a fresh sample: " << again); }
    vf::note("values streamed", (uint64_t)n); vf::note((std::string("tails compared: ") + (o.d ? kindName[o.sp.kind] : "generator functions")).c_str()); vf::sig(o.sp.show()); vf::sig((uint64_t)n); vf::nontrivial(); vf::sample([&] { return o.sp.show() + ": tails of " + vf::show(n) + " values"; }); return;
  }
  static const double sizes[] = {4e5, 1.6e6, 6e6}; double budget = vf::mt() ? 4e4 : sizes[s.below(3)];
  if (vf::thorough()) budget *= 4;
  int n = (int)std::min(vf::mt() ? 2000.0 : vf::thorough() ? 400000.0 : 100000.0, budget / o.sp.cost()); if (n < 500) n = 500;
  std::vector<double> v; v.reserve(n); for (int i = 0; i < n; ++i) v.push_back(o.next());
  vf::note("values sampled", n);
  for (double x : v) VF_CHECK("C28:support", o.sp.inSupport(x), o.sp.show() << " produced " << x);
  std::string bad = judge(o.sp, v, 1e-3);
  if (!bad.empty()) {
    vf::note("second samples drawn");
    std::vector<double> w; w.reserve(4 * n); for (int i = 0; i < 4 * n; ++i) w.push_back(o.next());
    std::string again = judge(o.sp, w, 1e-10);
    VF_CHECK("C28:law", again.empty(), o.sp.show() << (o.d ? "" : " (generator)") << ": " << bad << "; confirmed by a fresh sample: " << again);
  }
  vf::note((std::string("law compared: ") + (o.d ? kindName[o.sp.kind] : "generator functions")).c_str());
  vf::sig(o.sp.show()); vf::sig((uint64_t)o.form); vf::sig((uint64_t)n); vf::nontrivial();
  vf::sample([&] { double m = 0; for (double x : v) m += x; return o.sp.show() + ": " + std::to_string(n) + " values, mean " + vf::show(m / n); });
}
