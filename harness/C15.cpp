// Fraction: exact rational arithmetic in canonical form for every result that fits int.
#include "math_utils/Fraction.h"
#include "vf.h"
namespace {
typedef __int128 W;
struct R { long long n, d; };
W g(W a, W b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { W t = a % b; a = b; b = t; } return a; }
bool red(W n, W d, R& r) { if (d == 0) return false; W k = g(n, d); n /= k; d /= k; if (d < 0) { n = -n; d = -d; } if (n < -2147483647 - 1 || n > 2147483647 || d > 2147483647) return false; r.n = (long long)n; r.d = (long long)d; return true; }
std::string str(const R& r) { return std::to_string(r.n) + "/" + std::to_string(r.d); }
int part(vf::Src& s) { switch (s.below(4)) { case 0: return (int)s.range(-2147483647 - 1, 2147483647); case 1: return (int)s.range(-100000, 100000); default: return (int)s.range(-12, 12); } }
void same(cuhksz::Fraction f, const R& w, const std::string& what) {
  VF_CHECK("C15:value", f.getNumerator() == w.n && f.getDenominator() == w.d, what << " is " << f.getNumerator() << "/" << f.getDenominator() << ", expected " << str(w));
}
void order(const cuhksz::Fraction& a, const cuhksz::Fraction& b, const R& x, const R& y) {
  W l = (W)x.n * y.d, r = (W)y.n * x.d; std::string w = str(x) + " ? " + str(y);
  VF_CHECK("C15:compare", (a < b) == (l < r), "operator< of " << w); VF_CHECK("C15:compare", (a <= b) == (l <= r), "operator<= of " << w); VF_CHECK("C15:compare", (a > b) == (l > r), "operator> of " << w); VF_CHECK("C15:compare", (a >= b) == (l >= r), "operator>= of " << w); VF_CHECK("C15:compare", (a == b) == (l == r), "operator== of " << w); VF_CHECK("C15:compare", (a != b) == (l != r), "operator!= of " << w);
}
}  // namespace
// All operations on all small fractions and integers.
static void sweep() {
  using cuhksz::Fraction; std::vector<std::pair<int, int>> V; for (int n = -7; n <= 7; ++n) for (int d = -6; d <= 6; ++d) if (d) V.push_back({n, d});
  for (auto& p : V) for (auto& q : V) {
    R a, b, r; red(p.first, p.second, a); red(q.first, q.second, b); Fraction x(p.first, p.second), y(q.first, q.second); std::string w = std::to_string(p.first) + "/" + std::to_string(p.second) + " and " + std::to_string(q.first) + "/" + std::to_string(q.second);
    for (int op = 0; op < 4; ++op) { if (op == 3 && b.n == 0) continue; if (!(op == 0 ? red(a.n * b.d + b.n * a.d, a.d * b.d, r) : op == 1 ? red(a.n * b.d - b.n * a.d, a.d * b.d, r) : op == 2 ? red(a.n * b.n, a.d * b.d, r) : red(a.n * b.d, a.d * b.n, r))) continue;
      Fraction f = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y, g = x; op == 0 ? g += y : op == 1 ? g -= y : op == 2 ? g *= y : g /= y; same(f, r, std::string("+-*/"[op] + (" of " + w))); same(g, r, std::string("+-*/"[op] + ("= of " + w)));
      if (q.second == 1) { int c = q.first; Fraction h = op == 0 ? x + c : op == 1 ? x - c : op == 2 ? x * c : x / c; same(h, r, std::string("+-*/"[op] + (" with int of " + w))); }
      if (p.second == 1) { int c = p.first; Fraction h = op == 0 ? c + y : op == 1 ? c - y : op == 2 ? c * y : c / y; same(h, r, std::string("+-*/"[op] + (" of int and " + w))); } }
    same(x, a, w); same(y, b, w); order(x, y, a, b); }
  vf::note("pairs of small fractions", V.size() * V.size());
}
VF_HARNESS2(C15, true, sweep) {
  using cuhksz::Fraction; const int K = 3; Fraction v[K]; R m[K] = {{0, 1}, {0, 1}, {0, 1}}; std::string log; int n = 1 + s.size(60), done = 0;
  for (int i = 0; i < K; ++i) same(v[i], m[i], "Fraction()");
  for (int st = 0; st < n && !s.exhausted(); ++st) {
    int i = (int)s.below(K), j = (int)s.below(K), k = (int)s.below(K), op = (int)s.below(17), c = part(s); R r; std::string what; R ci = {c, 1}; vf::sig((uint64_t)op * 64 + i * 16 + j * 4 + k);
    R &a = m[i], &b = m[j];
    switch (op) {
      case 0: if (!red((W)a.n * b.d + (W)b.n * a.d, (W)a.d * b.d, r)) break; what = str(a) + " + " + str(b); v[k] = v[i] + v[j]; m[k] = r; break;
      case 1: if (!red((W)a.n * b.d - (W)b.n * a.d, (W)a.d * b.d, r)) break; what = str(a) + " - " + str(b); v[k] = v[i] - v[j]; m[k] = r; break;
      case 2: if (!red((W)a.n * b.n, (W)a.d * b.d, r)) break; what = str(a) + " * " + str(b); v[k] = v[i] * v[j]; m[k] = r; break;
      case 3: if (b.n == 0) { Fraction z = v[j], y = v[i]; vf::must_reject("C15:divide-by-zero", [&] { Fraction q = y / z; (void)q; }, [&] { return str(a) + " / " + str(b); }); break; }
        if (!red((W)a.n * b.d, (W)a.d * b.n, r)) break; what = str(a) + " / " + str(b); v[k] = v[i] / v[j]; m[k] = r; break;
      case 4: if (!red((W)a.n * b.d + (W)b.n * a.d, (W)a.d * b.d, r)) break; what = str(a) + " += " + str(b); v[i] += v[j]; m[i] = r; k = i; break;
      case 5: if (!red((W)a.n * b.d - (W)b.n * a.d, (W)a.d * b.d, r)) break; what = str(a) + " -= " + str(b); v[i] -= v[j]; m[i] = r; k = i; break;
      case 6: if (!red((W)a.n * b.n, (W)a.d * b.d, r)) break; what = str(a) + " *= " + str(b); v[i] *= v[j]; m[i] = r; k = i; break;
      case 7: if (b.n == 0 || !red((W)a.n * b.d, (W)a.d * b.n, r)) break; what = str(a) + " /= " + str(b); v[i] /= v[j]; m[i] = r; k = i; break;
      case 8: { bool left = s.chance(1, 2); if (!red((W)a.n + (W)c * a.d, a.d, r)) break; what = left ? str(ci) + " + " + str(a) : str(a) + " + " + str(ci); v[k] = left ? c + v[i] : v[i] + c; m[k] = r; break; }
      case 9: { bool left = s.chance(1, 2); W t = (W)a.n - (W)c * a.d; if (!red(left ? -t : t, a.d, r)) break; what = left ? "int " + str(ci) + " - " + str(a) : str(a) + " - int " + str(ci); v[k] = left ? c - v[i] : v[i] - c; m[k] = r; break; }
      case 10: { bool left = s.chance(1, 2); if (!red((W)a.n * c, a.d, r)) break; what = str(a) + (left ? " <-* int " : " * int ") + str(ci); v[k] = left ? c * v[i] : v[i] * c; m[k] = r; break; }
      case 11: { bool left = s.chance(1, 2); if ((left ? a.n : c) == 0) break; if (!(left ? red((W)c * a.d, a.n, r) : red(a.n, (W)a.d * c, r))) break; what = left ? "int " + str(ci) + " / " + str(a) : str(a) + " / int " + str(ci); v[k] = left ? c / v[i] : v[i] / c; m[k] = r; break; }
      case 12: { int d = part(s); if (d == 0) { vf::must_reject("C15:zero-denominator", [&] { Fraction q(c, d); (void)q; }, [&] { return "Fraction(" + std::to_string(c) + ", 0)"; }); break; } if (!red(c, d, r)) break; what = "Fraction(" + std::to_string(c) + ", " + std::to_string(d) + ")"; v[k] = Fraction(c, d); m[k] = r; break; }
      case 13: what = "Fraction(" + std::to_string(c) + ")"; if (s.chance(1, 2)) v[k] = Fraction(c); else v[k] = c; m[k] = ci; break;
      case 14: { int q = (int)s.below(4); what = str(a) + " op= int " + str(ci); k = i; if (q == 0) { if (!red((W)a.n + (W)c * a.d, a.d, r)) { what.clear(); break; } v[i] += c; } else if (q == 1) { if (!red((W)a.n - (W)c * a.d, a.d, r)) { what.clear(); break; } v[i] -= c; } else if (q == 2) { if (!red((W)a.n * c, a.d, r)) { what.clear(); break; } v[i] *= c; } else { if (!c || !red(a.n, (W)a.d * c, r)) { what.clear(); break; } v[i] /= c; } m[i] = r; break; }
      case 16: { // a close neighbour: comparison has to be exact however near the values are
        long long dn = (long long)a.n + (int)s.range(-3, 3), dd = (long long)a.d + (int)s.range(-3, 3); if (s.chance(1, 3)) { long long e = s.range(1, 2147483647); if (e > a.d && a.d > 0) { dd = e; dn = (long long)((W)a.n * e / a.d) + (int)s.range(-1, 1); } }
        if (dn < -2147483647 || dn > 2147483647 || dd < 1 || dd > 2147483647 || !red(dn, dd, r)) break; what = "neighbour " + str(r) + " of " + str(a); v[k] = Fraction((int)dn, (int)dd); m[k] = r; j = k; vf::note("close neighbours compared"); break; }
      default: { std::ostringstream o; o << v[i]; what = "text"; k = i; VF_CHECK("C15:text", o.str() == str(a), "operator<< gives " << o.str() << ", expected " << str(a)); }
    }
    if (what.empty()) { vf::note("rejections observed or results that would not fit"); continue; }
    log += "; " + what; if (log.size() > 2000) log = "..." + log.substr(log.size() - 1500);
    for (int q = 0; q < K; ++q) same(v[q], m[q], "after " + log + ": v" + std::to_string(q));
    order(v[i], v[j], m[i], m[j]); order(v[i], Fraction(c), m[i], ci); order(v[k], v[k], m[k], m[k]);
    ++done; vf::note("operations compared"); vf::sig(str(m[k]));
  }
  if (done > 1) vf::nontrivial(); vf::sample([&] { return log; });
}
