// SegmentTree: range minimum, maximum and sum under range add and range multiply, against a plain array.
#include "graph/SegmentTree.h"
#include "vf.h"
#include <memory>
namespace {
template <class T> bool ok(T v) { return v > T(-1000000000000000ll) && v < T(1000000000000000ll); }
template <> bool ok<int>(int v) { return v > -200000 && v < 200000; }
template <> bool ok<double>(double v) { return std::fabs(v) < 1e9 && v * 256 == std::floor(v * 256); }  // quarters: exact
template <class T> void history(vf::Src& s) {
  double M = 1, A = 0; double lim = std::is_same<T, int>::value ? 1e6 : 1e12;  // pending factors and addends stay far from the type's limits
  int n = 1 + (s.chance(1, 5) ? s.size(120) : (int)s.below(12)), ops = 1 + s.size(60), done = 0; if (s.below(80) == 79) n = (int)s.uni(200, s.chance(1, 3) ? 5000 : 1200); if (!std::is_same<T, int>::value && s.below(400) == 399) { n = (int)s.uni(32768, 70000); ops = 1 + (int)s.below(8); } std::vector<T> a; bool neg = s.chance(1, 2);
  if (n > 121 && std::is_same<T, int>::value) lim = 1e8 / n;
  for (int i = 0; i < n; ++i) a.push_back(std::is_same<T, double>::value ? (T)(s.range(-40, 40) / 4.0) : (T)s.range(-100, 100));
  std::string log = "array " + vf::show_seq(a, 20); std::vector<T> src = a; std::unique_ptr<cuhksz::SegmentTree<T>> t(new cuhksz::SegmentTree<T>(src)); VF_CHECK("C20:source", src == a, "construction changes its argument"); src.assign(n, T(0));
  VF_CHECK("C20:size", t->getSize() == n, "getSize() is " << t->getSize() << ", expected " << n);
  auto query = [&](int l, int r, int kind) {
    T mn = a[l], mx = a[l], sm = T(0); for (int i = l; i <= r; ++i) { mn = std::min(mn, a[i]); mx = std::max(mx, a[i]); sm += a[i]; }
    if (kind == 0) { T g = t->queryMax(l, r); VF_CHECK("C20:max", g == mx, "maximum of [" << l << ", " << r << "] is " << g << ", expected " << mx << " after " << log); }
    if (kind == 1) { T g = t->queryMin(l, r); VF_CHECK("C20:min", g == mn, "minimum of [" << l << ", " << r << "] is " << g << ", expected " << mn << " after " << log); }
    if (kind == 2) { T g = t->querySum(l, r); VF_CHECK("C20:sum", g == sm, "sum of [" << l << ", " << r << "] is " << g << ", expected " << sm << " after " << log); }
    vf::note("queries compared");
  };
  for (int st = 0; st < ops && !s.exhausted(); ++st) {
    int l = (int)s.below(n), r = l + (int)s.below(n - l); if (s.chance(1, 8)) { l = 0; r = n - 1; } int op = (int)s.below(6); vf::sig((uint64_t)op * 100000 + l * 300 + r);
    if (op < 2) { query(l, r, (int)s.below(3)); continue; }
    T x; bool fits = true; std::vector<T> b = a;
    if (op < 4) { x = std::is_same<T, double>::value ? (T)(s.range(-40, 40) / 4.0) : (T)s.range(-50, 50); for (int i = l; i <= r; ++i) { b[i] += x; fits &= ok(b[i]); } } else { x = (T)s.range(neg ? -4 : 0, 4); if (std::is_same<T, double>::value && s.chance(1, 2)) x = x / 2; for (int i = l; i <= r; ++i) { b[i] *= x; fits &= ok(b[i]); } }
    double m2 = op < 4 ? M : M * std::max(1.0, std::fabs((double)x)), a2 = op < 4 ? A + std::fabs((double)x) : A * std::max(1.0, std::fabs((double)x)); if (m2 > lim || a2 > lim) fits = false;
    if (!fits) { vf::note("skipped: range"); continue; }
    if (op < 4) t->addInterval(l, r, x); else t->mulInterval(l, r, x); a = b; M = m2; A = a2; ++done; log += std::string(op < 4 ? "; add " : "; mul ") + vf::show(x) + " to [" + std::to_string(l) + ", " + std::to_string(r) + "]"; if (log.size() > 2500) log = "..." + log.substr(log.size() - 2000); vf::note("updates applied");
    if (s.chance(1, 3)) query((int)s.below(1), n - 1, (int)s.below(3));
    if (s.chance(1, 30)) { std::unique_ptr<cuhksz::SegmentTree<T>> c(new cuhksz::SegmentTree<T>(*t)); t->addInterval(0, n - 1, T(1)); t.swap(c); }  // copies are independent
  }
  for (int k = 0; k < 3; ++k) query(0, n - 1, k); for (int i = 0; i < n; ++i) query(i, i, i % 3); for (int q = 0; q < 6; ++q) { int l = (int)s.below(n), r = l + (int)s.below(n - l); query(l, r, q % 3); }
  if (n > 1 && done) vf::nontrivial(); vf::sample([&] { return log; });
}
}  // namespace
VF_HARNESS2(C20, true, nullptr) { switch (s.below(5)) { case 0: case 1: history<int>(s); break; case 2: history<double>(s); break; default: history<long long>(s); } }
