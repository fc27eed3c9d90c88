// C27: random sequences are a function of the seed and the calls made: equal seeds give
// equal sequences, re-seeding restarts, unrelated activity does not disturb, different
// seeds differ, samplers draw from the generator they were given.
#include <ctime>
#include "dists.h"
using namespace vd;

namespace {
struct Call { int form; int a, b; double x, y; };
Call call(vf::Src& s) {
  Call c{(int)s.below(7), 0, 1, 0, 1};
  c.a = (int)s.range(INT_MIN, INT_MAX - 1); c.b = (int)s.range((long long)c.a + 1, INT_MAX); c.x = s.real(-100, 100); c.y = c.x + s.real(0, 50);
  return c;
}
double apply(const Call& c, Random& r) {
  switch (c.form) {
    case 0: return r.nextInt(); case 1: return r.nextInt(c.a, c.b); case 2: return r.nextInt(c.b > 0 ? c.b : 7); case 3: return r.nextBool();
    case 4: return r.nextDouble(); case 5: return r.nextDouble(c.x, c.y); default: return r.nextDouble(std::fabs(c.x));
  }
}
bool same(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || a == b; }

void disturb(vf::Src& s, std::vector<std::unique_ptr<Random>>& junk) {  // unrelated activity
  switch (s.below(4)) {
    case 0: junk.emplace_back(new Random((int)s.range(INT_MIN, INT_MAX))); break;
    case 1: if (!junk.empty()) junk[s.below(junk.size())]->nextInt(); break;
    case 2: { if (!vf::mt()) { randomInt(); randomDouble(); } break; }
    default: { NormalDistribution n; n.next(); PoissonDistribution p(2); p.next(); }
  }
}
}  // namespace

VF_HARNESS2(C27, true, nullptr) {
  int seed = (int)s.range(INT_MIN, INT_MAX);
  std::vector<std::unique_ptr<Random>> junk;
  int mode = (int)s.below(6);
  vf::sig((uint64_t)mode); vf::sig((uint64_t)seed); vf::nontrivial();
  if (mode <= 1) {  // raw calls: record, then replay against a second generator / the re-seeded one
    int n = 1 + s.size(400); Random r(seed); std::vector<Call> cs; std::vector<double> v;
    if (s.chance(1, 3)) { int w = s.size(700); for (int i = 0; i < w; ++i) r.nextInt(); r.setSeed(seed); vf::note("re-seeded before recording"); }
    for (int i = 0; i < n; ++i) { cs.push_back(call(s)); v.push_back(apply(cs[i], r)); }
    if (mode == 0) {
      Random q(seed);
      for (int i = 0; i < n; ++i) { if (s.chance(1, 8)) disturb(s, junk); double x = apply(cs[i], q); VF_CHECK("C27:seed", same(x, v[i]), "draw " << i << " (form " << cs[i].form << ") with seed " << seed << ": " << x << " and earlier " << v[i]); vf::note("draws compared"); }
    } else {
      r.setSeed(seed);
      for (int i = 0; i < n; ++i) { if (s.chance(1, 8)) disturb(s, junk); double x = apply(cs[i], r); VF_CHECK("C27:reseed", same(x, v[i]), "draw " << i << " after setSeed(" << seed << "): " << x << " and earlier " << v[i]); vf::note("draws compared"); }
    }
    vf::sample([&] { return "seed " + std::to_string(seed) + ", " + std::to_string(n) + " mixed draws replayed, last " + vf::show(v.back()); });
  } else if (mode == 2) {  // different seeds
    int t = s.chance(1, 2) ? (int)s.range(INT_MIN, INT_MAX) : seed ^ (1 << s.below(31)); if (s.chance(1, 8)) t = (int)(0u - (unsigned)seed);
    if (t == seed) t ^= 1;
    Random a(seed), b(t); if (s.chance(1, 2)) { b.setSeed(seed); b.setSeed(t); }
    bool diff = false; for (int i = 0; i < 12; ++i) diff |= a.nextInt() != b.nextInt();
    VF_CHECK("C27:distinct-seeds", diff, "seeds " << seed << " and " << t << " give the same sequence"); vf::note("seed pairs told apart");
  } else if (mode == 3) {  // samplers: several on one generator, interleaved, then replayed
    int k = 1 + (int)s.below(4); std::vector<Spec> sp; for (int i = 0; i < k; ++i) { Spec x = spec(s, true); while (x.cost() > 400) { x.a = 1; x.i = std::min(x.i, 5); } sp.push_back(x); }
    int n = 1 + s.size(120); std::vector<int> who; for (int i = 0; i < n; ++i) who.push_back((int)s.below(k + 1));
    std::vector<double> v[2];
    for (int pass = 0; pass < 2; ++pass) {
      Random r(seed); std::vector<std::unique_ptr<Sampler>> d; for (auto& x : sp) d.push_back(make(x, r));
      for (int i = 0; i < n; ++i) { if (pass && s.chance(1, 8)) disturb(s, junk); v[pass].push_back(who[i] == k ? (double)r.nextInt() : d[who[i]]->next()); }
    }
    for (int i = 0; i < n; ++i) { VF_CHECK("C27:sampler", same(v[0][i], v[1][i]), "draw " << i << " by " << (who[i] == k ? std::string("generator") : sp[who[i]].show()) << " with seed " << seed << ": " << v[1][i] << " and earlier " << v[0][i]); vf::note("sampler draws compared"); }
    vf::sig(sp[0].show()); vf::sig((uint64_t)n);
  } else if (mode == 4) {  // a fresh sampler switched to another generator behaves like one made with it
    Spec x = spec(s, true); while (x.cost() > 400) { x.a = 1; x.i = std::min(x.i, 5); }
    int n = 1 + s.size(60); Random a(seed), b(seed), other((int)s.range(INT_MIN, INT_MAX));
    std::unique_ptr<Sampler> p = make(x, a), q = s.chance(1, 2) ? makeOwn(x) : make(x, other);
    if (x.kind != NORMAL) { int w = s.size(10); for (int i = 0; i < w; ++i) q->next(); }  // Normal documents no restart
    q->rebind(b); if (s.chance(1, 4)) q->rebind(b);
    for (int i = 0; i < n; ++i) { double u = p->next(), w = q->next(); VF_CHECK("C27:switch-generator", same(u, w), x.show() << " draw " << i << " after the generator was set: " << w << ", expected " << u); vf::note("sampler draws compared"); }
    VF_CHECK("C27:shared-generator", a.nextInt() == b.nextInt(), x.show() << " did not draw from the generator it was given"); vf::sig(x.show());
    // and it really consumes the shared generator
    Random c(seed); bool moved = false; for (int i = 0; i < 12; ++i) moved |= a.nextInt() != c.nextInt();
    VF_CHECK("C27:consumes-generator", moved || n == 0, x.show() << " left its generator untouched");
  } else {  // copies of a generator are independent and continue identically; default seed is the time
    Random r(seed); int w = s.size(700); for (int i = 0; i < w; ++i) r.nextInt();
    Random c(r); int n = 1 + s.size(100); std::vector<Call> cs; std::vector<double> v;
    for (int i = 0; i < n; ++i) { cs.push_back(call(s)); v.push_back(apply(cs[i], r)); }
    for (int i = 0; i < n; ++i) { double x = apply(cs[i], c); VF_CHECK("C27:copy", same(x, v[i]), "copied generator diverges at draw " << i); vf::note("draws compared"); }
  }
}
