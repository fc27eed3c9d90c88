// Invalid use is always rejected (failure exit + diagnostic); boundary-valid use never is.
#include <sys/wait.h>
#include <climits>
#include <memory>
#include "containers/List.h"
#include "containers/Map.h"
#include "containers/MultiSet.h"
#include "containers/Queue.h"
#include "containers/Stack.h"
#include "containers/Vector.h"
#include "math_utils/Fraction.h"
#include "math_utils/math_functions.h"
#include "random.h"
#include "elems.h"
namespace {
using namespace cuhksz;
typedef std::function<void()> Fn;
struct Probe { const char* name; std::function<Fn(vf::Src&, std::string&)> bad; };
volatile long long g_sink;
template <class T> void sink(const T& v) { g_sink += (long long)sizeof(v); (void)v; }
inline void sink(int v) { g_sink += v; }

// an int outside [lo, hi]
int outside(vf::Src& s, long long lo, long long hi) {
  bool below = lo > INT_MIN && (hi >= INT_MAX || s.chance(1, 2));
  if (below) return s.chance(1, 3) ? (int)(lo - 1) : s.chance(1, 2) && lo > INT_MIN + 200 ? (int)s.uni(lo - 60, lo - 1) : (int)s.range(INT_MIN, lo - 1);
  return s.chance(1, 3) ? (int)(hi + 1) : s.chance(1, 2) && hi < INT_MAX - 200 ? (int)s.uni(hi + 1, hi + 1 + (s.chance(1, 2) ? 8 : hi / 2 + 20)) : (int)s.range(hi + 1, INT_MAX);
}
// number of elements of a container: mostly small, sometimes thousands
int many(vf::Src& s, int small) { return s.chance(1, 24) ? (int)s.uni(100, s.chance(1, 8) ? 70000 : 5000) : s.size(small); }
// a container with a history: grown, possibly shrunk again at the ends or inside, possibly a copy or an assigned value
template <class C> std::shared_ptr<C> filled(vf::Src& s, std::string& d, int& n) {
  auto c = std::make_shared<C>(); int g = many(s, 40); for (int i = 0; i < g; ++i) c->push(i % 19 - 9);
  n = g; d = "grown to " + vf::show(g);
  if (s.chance(1, 2)) { int drop = (int)s.range(0, g); if (g > 200 && s.chance(1, 2)) { for (int i = 0; i < drop; ++i) c->pop(); } else { if (drop > 200) drop = 200; for (int i = 0; i < drop; ++i) { if (s.chance(1, 2)) c->pop(); else c->erase((int)s.uni(0, c->size() - 1)); } } n -= drop; d += " then shrunk"; }
  else if (s.chance(1, 6)) { c->clear(); n = s.size(5); for (int i = 0; i < n; ++i) c->push(i); d += " then cleared and refilled"; }
  if (s.chance(1, 8)) { c = std::make_shared<C>(*c); d += ", copied"; } else if (s.chance(1, 8)) { auto e = std::make_shared<C>(); int k = s.size(60); for (int i = 0; i < k; ++i) e->push(i); *e = *c; c = e; d += ", assigned"; }
  d += ", size " + vf::show(n); VF_EQ("C04:size", c->size(), n, d); return c;
}
// an empty container with a history
template <class C> std::shared_ptr<C> emptied(vf::Src& s, std::string& d) { auto c = std::make_shared<C>(); int rounds = 1 + (int)s.below(2); for (int r = 0; r < rounds; ++r) { int n = many(s, 20); for (int i = 0; i < n; ++i) c->push((int)i); if (s.chance(1, 2)) c->clear(); else for (int i = 0; i < n; ++i) c->pop(); d += "emptied after " + vf::show(n) + " elements "; } if (s.chance(1, 8)) c = std::make_shared<C>(*c); return c; }
std::shared_ptr<Queue<int>> emptiedq(vf::Src& s, std::string& d) { auto c = std::make_shared<Queue<int>>(); int rounds = 1 + (int)s.below(2); for (int r = 0; r < rounds; ++r) { int n = many(s, 20); for (int i = 0; i < n; ++i) c->enqueue((int)i); if (s.chance(1, 2)) c->clear(); else for (int i = 0; i < n; ++i) c->dequeue(); d += "emptied after " + vf::show(n) + " elements "; } if (s.chance(1, 8)) c = std::make_shared<Queue<int>>(*c); return c; }
std::shared_ptr<Map<int, int>> amap(vf::Src& s, std::string& d, int& missing) { auto m = std::make_shared<Map<int, int>>(); int n = s.size(40); for (int i = 0; i < n; ++i) m->set((int)s.uni(-20, 20), i); missing = (int)s.uni(-22, 22); for (int i = 0; i < 3; ++i) if (m->contains(missing)) { m->erase(missing); } d = "key " + vf::show(missing) + " absent among " + vf::show(m->size()); return m; }
std::shared_ptr<MultiSet<int>> amset(vf::Src& s, std::string& d, int& missing) { auto m = std::make_shared<MultiSet<int>>(); int n = s.size(40); for (int i = 0; i < n; ++i) m->insert((int)s.uni(-10, 10)); missing = (int)s.uni(-12, 12); if (m->contains(missing)) m->erase(missing); d = "value " + vf::show(missing) + " absent among " + vf::show(m->size()); return m; }

#define IDX(NAME, C, EXPR, HI) {NAME, [](vf::Src& s, std::string& d) -> Fn { int n; auto c = filled<C>(s, d, n); int i = outside(s, 0, HI); d += " index " + vf::show(i); return [c, i] { auto& x = *c; const auto& cx = *c; (void)x; (void)cx; EXPR; }; }}
#define EMP(NAME, C, EXPR) {NAME, [](vf::Src& s, std::string& d) -> Fn { auto c = emptied<C>(s, d); return [c] { auto& x = *c; const auto& cx = *c; (void)x; (void)cx; EXPR; }; }}
#define EMPQ(NAME, EXPR) {NAME, [](vf::Src& s, std::string& d) -> Fn { auto c = emptiedq(s, d); return [c] { auto& x = *c; const auto& cx = *c; (void)x; (void)cx; EXPR; }; }}
#define CALL(NAME, SETUP, DESC, EXPR) {NAME, [](vf::Src& s, std::string& d) -> Fn { SETUP; { std::ostringstream o; o << DESC; d = o.str(); } return [=]() mutable { EXPR; }; }}
typedef Vector<int> V; typedef List<int> L; typedef Stack<int> S;
double negd(vf::Src& s) { double v = s.chance(1, 3) ? 1e-12 : s.real(0, 1e9); if (v == 0) v = 0.5; return -v; }
double gt1(vf::Src& s) { return s.chance(1, 3) ? 1.0000001 : 1 + s.real(0.001, 1e6); }
double badp(vf::Src& s) { return s.chance(1, 2) ? negd(s) : gt1(s); }
double nonpos(vf::Src& s) { return s.chance(1, 3) ? 0.0 : negd(s); }

const std::vector<Probe>& probes() {
  static const std::vector<Probe> p = {
    IDX("Vector.get", V, sink(x.get(i)), n - 1), IDX("Vector.get const", V, sink(cx.get(i)), n - 1),
    IDX("Vector[]", V, sink(x[i]), n - 1), IDX("Vector[] const", V, sink(cx[i]), n - 1),
    IDX("Vector.set", V, x.set(i, 1), n - 1), IDX("Vector.erase", V, x.erase(i), n - 1), IDX("Vector.insert", V, x.insert(i, 1), n),
    EMP("Vector.first", V, sink(x.first())), EMP("Vector.first const", V, sink(cx.first())), EMP("Vector.last", V, sink(x.last())), EMP("Vector.last const", V, sink(cx.last())), EMP("Vector.pop", V, sink(x.pop())),
    IDX("List[]", L, sink(x[i]), n - 1), IDX("List[] const", L, sink(cx[i]), n - 1), IDX("List.erase", L, x.erase(i), n - 1), IDX("List.insert", L, x.insert(i, 1), n),
    EMP("List.first", L, sink(x.first())), EMP("List.first const", L, sink(cx.first())), EMP("List.last", L, sink(x.last())), EMP("List.last const", L, sink(cx.last())), EMP("List.pop", L, sink(x.pop())), EMP("List.pop_front", L, sink(x.pop_front())),
    EMP("Stack.top", S, sink(x.top())), EMP("Stack.top const", S, sink(cx.top())), EMP("Stack.pop", S, sink(x.pop())),
    EMPQ("Queue.dequeue", sink(x.dequeue())), EMPQ("Queue.first", sink(x.first())), EMPQ("Queue.first const", sink(cx.first())), EMPQ("Queue.last", sink(x.last())), EMPQ("Queue.last const", sink(cx.last())),
    {"Map.get", [](vf::Src& s, std::string& d) -> Fn { int k; auto m = amap(s, d, k); return [m, k] { sink(m->get(k)); }; }},
    {"Map.get const", [](vf::Src& s, std::string& d) -> Fn { int k; auto m = amap(s, d, k); return [m, k] { const Map<int, int>& c = *m; sink(c.get(k)); }; }},
    {"MultiSet.erase", [](vf::Src& s, std::string& d) -> Fn { int k; auto m = amset(s, d, k); return [m, k] { m->erase(k); }; }},
    CALL("Fraction(n,0)", int n = (int)s.range(INT_MIN, INT_MAX), n << "/0", Fraction f(n, 0); sink(f)),
    CALL("Fraction / 0", int a = (int)s.uni(-1000, 1000); int b = (int)s.uni(1, 1000), a << "/" << b << " / 0", Fraction f(a, b); sink(f / Fraction(0, 5))),
    CALL("Fraction /= 0", int a = (int)s.uni(-1000, 1000); int b = (int)s.uni(1, 1000), a << "/" << b << " /= 0", Fraction f(a, b); f /= Fraction(0); sink(f)),
    CALL("int / Fraction 0", int a = (int)s.uni(-1000, 1000), a << " / Fraction(0)", sink(a / Fraction(0))),
    CALL("binaryPow negative", int b = (int)s.uni(-10, 10); int e = (int)s.range(INT_MIN, -1), b << "^" << e, sink(binaryPow(b, e))),
    CALL("genericBinaryPow negative int", int b = (int)s.uni(-10, 10); int e = (int)s.range(INT_MIN, -1), b << "^" << e, sink(genericBinaryPow(b, e))),
    CALL("genericBinaryPow negative Fraction", int b = (int)s.uni(1, 10); int e = (int)s.range(INT_MIN, -1), b << "^" << e, sink(genericBinaryPow(Fraction(b, 3), e))),
    CALL("factorial negative", int n = (int)s.range(INT_MIN, -1), n, sink(factorial(n))),
    CALL("factorial negative long", long long n = s.range(LLONG_MIN, -1), n, sink(factorial(n))),
    CALL("permutation n<0", int n = (int)s.range(INT_MIN, -1); int r = s.chance(1, 2) ? n : (int)s.range(INT_MIN, 20), n << "," << r, sink(permutation(n, r))),
    CALL("permutation r<0", int n = (int)s.uni(0, 12); int r = (int)s.range(INT_MIN, -1), n << "," << r, sink(permutation(n, r))),
    CALL("permutation r>n", int n = (int)s.uni(0, 12); int r = (int)s.range(n + 1, INT_MAX), n << "," << r, sink(permutation(n, r))),
    CALL("binomial n<0", int n = (int)s.range(INT_MIN, -1); int r = s.chance(1, 2) ? n : (int)s.range(INT_MIN, 20), n << "," << r, sink(binomial(n, r))),
    CALL("binomial r<0", int n = (int)s.uni(0, 20); int r = (int)s.range(INT_MIN, -1), n << "," << r, sink(binomial(n, r))),
    CALL("binomial r>n", int n = (int)s.uni(0, 20); int r = (int)s.range(n + 1, INT_MAX), n << "," << r, sink(binomial(n, r))),
    CALL("Random.nextInt(min,max)", int a = (int)s.range(INT_MIN, INT_MAX); int b = s.chance(1, 3) ? a : (int)s.range(INT_MIN, a), a << "," << b, Random r(1); sink(r.nextInt(a, b))),
    CALL("Random.nextInt(max)", int b = (int)s.range(INT_MIN, 0), b, Random r(1); sink(r.nextInt(b))),
    CALL("Random.nextDouble(min,max)", double a = s.real(-1e6, 1e6); double b = a + negd(s) - 1e-3, a << "," << b, Random r(1); sink(r.nextDouble(a, b))),
    CALL("Random.nextDouble(max)", double b = negd(s), b, Random r(1); sink(r.nextDouble(b))),
    CALL("randomInt(min,max)", int a = (int)s.range(INT_MIN, INT_MAX); int b = s.chance(1, 3) ? a : (int)s.range(INT_MIN, a), a << "," << b, sink(randomInt(a, b))),
    CALL("randomInt(max)", int b = (int)s.range(INT_MIN, 0), b, sink(randomInt(b))),
    CALL("randomDouble(min,max)", double a = s.real(-1e6, 1e6); double b = a + negd(s) - 1e-3, a << "," << b, sink(randomDouble(a, b))),
    CALL("randomDouble(max)", double b = negd(s), b, sink(randomDouble(b))),
    CALL("Bernoulli p", double p = badp(s), p, BernoulliDistribution x(p)),
    CALL("Bernoulli(Random) p", double p = badp(s), p, Random r(1); BernoulliDistribution x(r, p)),
    CALL("Binomial n", int n = (int)s.range(INT_MIN, -1), n, BinomialDistribution x(n, 0.5)),
    CALL("Binomial p", int n = (int)s.uni(0, 20); double p = badp(s), n << "," << p, BinomialDistribution x(n, p)),
    CALL("Binomial(Random) n", int n = (int)s.range(INT_MIN, -1), n, Random r(1); BinomialDistribution x(r, n, 0.5)),
    CALL("Binomial(Random) p", int n = (int)s.uni(0, 20); double p = badp(s), n << "," << p, Random r(1); BinomialDistribution x(r, n, p)),
    CALL("NegativeBinomial r", int n = (int)s.range(INT_MIN, 0), n, NegativeBinomialDistribution x(n, 0.5)),
    CALL("NegativeBinomial p", int n = (int)s.uni(1, 20); double p = s.chance(1, 3) ? 0.0 : badp(s), n << "," << p, NegativeBinomialDistribution x(n, p)),
    CALL("NegativeBinomial(Random) r", int n = (int)s.range(INT_MIN, 0), n, Random r(1); NegativeBinomialDistribution x(r, n, 0.5)),
    CALL("Geometric p", double p = s.chance(1, 3) ? 0.0 : badp(s), p, GeometricDistribution x(p)),
    CALL("Geometric(Random) p", double p = s.chance(1, 3) ? 0.0 : badp(s), p, Random r(1); GeometricDistribution x(r, p)),
    CALL("Poisson lambda", double l = nonpos(s), l, PoissonDistribution x(l)),
    CALL("Poisson(Random) lambda", double l = nonpos(s), l, Random r(1); PoissonDistribution x(r, l)),
    CALL("Normal stddev", double m = s.real(-10, 10); double l = nonpos(s), m << "," << l, NormalDistribution x(m, l)),
    CALL("Normal(Random) stddev", double m = s.real(-10, 10); double l = nonpos(s), m << "," << l, Random r(1); NormalDistribution x(r, m, l)),
    CALL("Gamma k", double k = nonpos(s); double t = 0.1 + s.real(0, 10), k << "," << t, GammaDistribution x(k, t)),
    CALL("Gamma theta", double k = 0.1 + s.real(0, 10); double t = nonpos(s), k << "," << t, GammaDistribution x(k, t)),
    CALL("Gamma(Random) theta", double k = 0.1 + s.real(0, 10); double t = nonpos(s), k << "," << t, Random r(1); GammaDistribution x(r, k, t)),
    CALL("ChiSquared r", double k = nonpos(s), k, ChiSquaredDistribution x(k)),
    CALL("ChiSquared(Random) r", double k = nonpos(s), k, Random r(1); ChiSquaredDistribution x(r, k)),
    CALL("Exponential lambda", double l = nonpos(s), l, ExponentialDistribution x(l)),
    CALL("Exponential(Random) lambda", double l = nonpos(s), l, Random r(1); ExponentialDistribution x(r, l)),
    CALL("StudentT r", double l = nonpos(s), l, StudentTDistribution x(l)),
    CALL("StudentT(Random) r", double l = nonpos(s), l, Random r(1); StudentTDistribution x(r, l)),
    CALL("Uniform min>max", double a = s.real(-1e6, 1e6); double b = a + negd(s) - 1e-3, a << "," << b, UniformDistribution x(a, b)),
    CALL("Uniform max<0", double b = negd(s), b, UniformDistribution x(b)),
    CALL("Uniform(Random) min>max", double a = s.real(-1e6, 1e6); double b = a + negd(s) - 1e-3, a << "," << b, Random r(1); UniformDistribution x(r, a, b)),
    CALL("UniformInt min>=max", int a = (int)s.range(INT_MIN, INT_MAX); int b = s.chance(1, 3) ? a : (int)s.range(INT_MIN, a), a << "," << b, UniformIntDistribution x(a, b)),
    CALL("UniformInt max<=0", int b = (int)s.range(INT_MIN, 0), b, UniformIntDistribution x(b)),
    CALL("UniformInt(Random) min>=max", int a = (int)s.range(INT_MIN, INT_MAX); int b = s.chance(1, 3) ? a : (int)s.range(INT_MIN, a), a << "," << b, Random r(1); UniformIntDistribution x(r, a, b)),
    CALL("UniformInt(Random) max<=0", int b = (int)s.range(INT_MIN, 0), b, Random r(1); UniformIntDistribution x(r, b)),
  };
  return p;
}

// Boundary-valid uses: none may be rejected, throw or misbehave.
void valid(vf::Src& s) {
  switch (s.below(16)) {
    case 0: { Vector<int> v; int n = 1 + s.size(60); for (int i = 0; i < n; ++i) v.push(i); int i = (int)s.range(0, n - 1); const Vector<int>& c = v; sink(v.get(i)); sink(c.get(i)); sink(v[i]); sink(c[i]); v.set(i, 3); v.insert((int)s.range(0, n), 1); v.insert(n + 1, 2); v.erase((int)s.range(0, n + 1)); while (!v.isEmpty()) { sink(v.first()); sink(c.last()); v.pop(); } break; }
    case 1: { List<int> v; int n = 1 + s.size(60); for (int i = 0; i < n; ++i) v.push(i); int i = (int)s.range(0, n - 1); const List<int>& c = v; sink(v[i]); sink(c[i]); v.insert((int)s.range(0, n), 1); v.insert(n + 1, 2); v.erase((int)s.range(0, n + 1)); while (!v.isEmpty()) { sink(v.first()); sink(c.last()); if (s.chance(1, 2)) v.pop(); else v.pop_front(); } break; }
    case 2: { Stack<int> v; int n = 1 + s.size(60); for (int i = 0; i < n; ++i) v.push(i); while (!v.isEmpty()) { sink(v.top()); v.pop(); } v.clear(); break; }
    case 3: { Queue<int> v; int n = 1 + s.size(60); for (int i = 0; i < n; ++i) v.enqueue(i); while (!v.isEmpty()) { sink(v.first()); sink(v.last()); v.dequeue(); } v.clear(); break; }
    case 4: { Map<int, int> m; int k = (int)s.range(INT_MIN, INT_MAX); m.set(k, 1); const Map<int, int>& c = m; sink(m.get(k)); sink(c.get(k)); m.erase(k); m.erase(k); sink(m[k]); sink(m.get(k)); break; }
    case 5: { MultiSet<int> m; int k = (int)s.range(INT_MIN, INT_MAX); m.insert(k); m.insert(k); m.erase(k); VF_EQ("C04:valid", m.size(), 0, "erase removes all equal values"); break; }
    case 6: { int n = (int)s.range(-1000000, 1000000), d = (int)s.range(1, 1000000); if (s.chance(1, 2)) d = -d; Fraction f(n, d); Fraction g(n, 1), h(n); sink(f); sink(f / Fraction(1)); sink(f / Fraction(-1)); break; }
    case 7: { sink(binaryPow(s.uni(-1000, 1000), 0)); sink(binaryPow(s.uni(-1000, 1000), 1)); sink(genericBinaryPow((int)s.uni(-1000, 1000), 0)); sink(genericBinaryPow((long long)s.uni(-1000, 1000), 1)); break; }
    case 8: { sink(factorial(0)); int n = (int)s.uni(0, 12); sink(factorial(n)); sink(permutation(n, 0)); sink(permutation(n, n)); sink(binomial(n, 0)); sink(binomial(n, n)); sink(binomial(0, 0)); sink(permutation(0, 0)); break; }
    case 9: { Random r((int)s.range(INT_MIN, INT_MAX)); int a = (int)s.range(INT_MIN, INT_MAX - 1); sink(r.nextInt(a, a + 1)); sink(r.nextInt(1)); double x = s.real(-1e9, 1e9); sink(r.nextDouble(x, x)); sink(r.nextDouble(0)); break; }
    case 10: { Random r(3); BernoulliDistribution a(r, 0), b(r, 1); sink(a.next()); sink(b.next()); BinomialDistribution c(r, 0, 0.5), d(r, (int)s.uni(0, 20), 0), e(r, (int)s.uni(0, 20), 1); sink(c.next()); sink(d.next()); sink(e.next()); break; }
    case 11: { Random r(3); NegativeBinomialDistribution a(r, 1, 1), b(r, (int)s.uni(1, 9), 1); sink(a.next()); sink(b.next()); GeometricDistribution g(r, 1); sink(g.next()); GeometricDistribution g2(r, s.chance(1, 2) ? 0.3 : 0.9); sink(g2.next()); break; }
    case 12: { Random r(3); PoissonDistribution a(r, s.chance(1, 3) ? 1e-9 : 0.1 + s.real(0, 50)); sink(a.next()); NormalDistribution n(r, s.real(-9, 9), s.chance(1, 3) ? 1e-9 : 1.5); sink(n.next()); break; }
    case 13: { Random r(3); GammaDistribution a(r, 0.05 + s.real(0, 9), s.chance(1, 3) ? 1e-9 : 2); sink(a.next()); ChiSquaredDistribution c(r, 0.2 + s.real(0, 9)); sink(c.next()); ExponentialDistribution e(r, 0.01 + s.real(0, 9)); sink(e.next()); StudentTDistribution t(r, 0.5 + s.real(0, 9)); sink(t.next()); break; }
    case 14: { Random r(3); double x = s.real(-1e6, 1e6); UniformDistribution u(r, x, x), w(r, 0.0); sink(u.next()); sink(w.next()); int a = (int)s.range(INT_MIN, INT_MAX - 1); UniformIntDistribution i(r, a, a + 1), j(r, 1); sink(i.next()); sink(j.next()); break; }
    default: { int a = (int)s.range(INT_MIN, INT_MAX - 1); if (!vf::mt()) { sink(randomInt(a, a + 1)); sink(randomInt(1)); sink(randomDouble(1.5, 1.5)); sink(randomDouble(0)); sink(randomBool()); sink(randomInt()); } break; }
  }
}

// Every kind of rejection once for real: a child process that really exits.
void once() {
  vf::Src s(vf::seed() * 77 + 5);
  int k = 0;
  for (auto& p : probes()) {
    std::string d, diag; Fn f = p.bad(s, d);
    int st = vf::real_child(f, diag); ++k;
    VF_CHECK("C04:real-exit", WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) < 97, p.name << " (" << d << "): wait status " << st << ", stderr: " << diag.substr(0, 300));
    VF_CHECK("C04:real-exit", !diag.empty(), p.name << " (" << d << "): no diagnostic on stderr");
    VF_CHECK("C04:real-exit", diag.find("Sanitizer") == std::string::npos && diag.find("runtime error") == std::string::npos, p.name << ": " << diag.substr(0, 300));
  }
  vf::note("real process exits observed", k);
}
}  // namespace
VF_HARNESS2(C04, true, once) {
  if (s.chance(1, 3)) { valid(s); vf::note("boundary-valid uses accepted"); vf::nontrivial(); return; }
  if (vf::mt()) return;
  const auto& ps = probes(); size_t i = s.below(ps.size());
  std::string d; Fn f = ps[i].bad(s, d);
  vf::must_reject(std::string("C04:not-rejected:") + ps[i].name, f, [&] { return std::string(ps[i].name) + " (" + d + ")"; });
  vf::nontrivial(); vf::sig(i); vf::sig(d);
  vf::sample([&] { return std::string("rejected: ") + ps[i].name + " (" + d + ")"; });
}
