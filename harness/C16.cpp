// Matrix: value semantics, arithmetic and elimination against a plain two-dimensional reference.
#include "math_utils/Fraction.h"
#include "math_utils/Matrix.h"
#include "vf.h"
#include <csignal>
#include <sys/wait.h>
namespace {
using cuhksz::Fraction; using cuhksz::Matrix;
template <class T> struct Num;
template <> struct Num<int> { static int make(vf::Src& s) { return (int)s.range(-9, 9); } static bool ok(int v) { return v > -1000000 && v < 1000000; } static std::string str(int v) { return std::to_string(v); } static const bool text = true; };
template <> struct Num<long long> { static long long make(vf::Src& s) { return s.range(-1000, 1000); } static bool ok(long long v) { return v > -1000000000000ll && v < 1000000000000ll; } static std::string str(long long v) { return std::to_string(v); } static const bool text = true; };
// doubles hold small multiples of 1/4: products and sums stay exact
template <> struct Num<double> { static double make(vf::Src& s) { return s.range(-40, 40) / 4.0; } static bool ok(double v) { return std::fabs(v) < 1e6 && v * 1048576 == std::floor(v * 1048576); } static std::string str(double v) { return std::to_string(v); } static const bool text = true; };
template <> struct Num<Fraction> { static Fraction make(vf::Src& s) { return Fraction((int)s.range(-9, 9), (int)s.range(1, 6)); } static bool ok(Fraction v) { return std::abs(v.getNumerator()) < 20000 && v.getDenominator() < 20000; } static std::string str(Fraction v) { return vf::show(v); } static const bool text = false; };
template <class T> struct M2 { int r, c; std::vector<std::vector<T>> e; M2(int r, int c) : r(r), c(c), e(r, std::vector<T>(c, T(0))) {} };
template <class T> std::string text(const M2<T>& m) { std::string t = "["; for (auto& row : m.e) { t += "["; for (size_t j = 0; j < row.size(); ++j) t += (j ? " " : "") + Num<T>::str(row[j]); t += "]"; } return t + "]"; }
template <class T> void same(const Matrix<T>& a, const M2<T>& m, const std::string& what) {
  for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) VF_CHECK("C16:value", a[i][j] == m.e[i][j], what << ": element [" << i << "][" << j << "] is " << Num<T>::str(a[i][j]) << ", expected " << text(m));
}
template <class T> M2<T> mul(const M2<T>& a, const M2<T>& b) { M2<T> r(a.r, b.c); for (int i = 0; i < a.r; ++i) for (int j = 0; j < b.c; ++j) { T t(0); for (int k = 0; k < a.c; ++k) t = t + a.e[i][k] * b.e[k][j]; r.e[i][j] = t; } return r; }
template <class T> bool fine(const M2<T>& m) { for (auto& r : m.e) for (auto& x : r) if (!Num<T>::ok(x)) return false; return true; }
// Products whose partial sums could leave the exact range are not asked for.
template <class T> bool small(const M2<T>& m, int lim) { for (auto& r : m.e) for (auto& x : r) if (x > T(lim) || x < T(-lim)) return false; return true; }
bool small(const M2<Fraction>& m, int) { for (auto& r : m.e) for (auto x : r) if (std::abs(x.getNumerator()) > 60 || x.getDenominator() > 6) return false; return true; }
template <class T> void build(vf::Src& s, Matrix<T>& a, M2<T>& m) { for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { T v = s.chance(1, 4) ? T(0) : Num<T>::make(s); a[i][j] = v; m.e[i][j] = v; } }
template <class T> void txt(const Matrix<T>& a, const M2<T>& m, std::true_type) {
  std::string w; for (auto& r : m.e) { for (size_t j = 0; j < r.size(); ++j) w += (j ? ", " : "") + std::to_string(r[j]); w += "\n"; }
  std::ostringstream o; o << a; VF_CHECK("C16:text", a.toString() == w && o.str() == w, "text is " << vf::quote(o.str()) << ", expected " << vf::quote(w));
}
template <class T> void txt(const Matrix<T>&, const M2<T>&, std::false_type) {}
template <class T> void history(vf::Src& s) {
  const int K = 3; std::vector<M2<T>> m; std::vector<Matrix<T>> v; v.reserve(K); std::string log; int n = 1 + s.size(25), done = 0;
  int dim = 1 + (int)s.below(s.chance(1, 10) ? 9 : 4); bool square = s.chance(1, 2);
  for (int i = 0; i < K; ++i) { int r = square ? dim : 1 + (int)s.below(4), c = square ? dim : 1 + (int)s.below(4); m.emplace_back(r, c); if (r == c && s.chance(1, 2)) v.emplace_back(r); else v.emplace_back(r, c); same(v[i], m[i], "new Matrix"); if (s.chance(7, 8)) build(s, v[i], m[i]); }
  for (int st = 0; st < n && !s.exhausted(); ++st) {
    int i = (int)s.below(K), j = (int)s.below(K), k = (int)s.below(K), op = (int)s.below(16); M2<T>&a = m[i], &b = m[j]; std::string what; vf::sig((uint64_t)op * 64 + i * 16 + j * 4 + k);
    bool dims = a.r == b.r && a.c == b.c;
    switch (op) {
      case 0: case 1: { if (!dims) break; M2<T> r = a; for (int x = 0; x < a.r; ++x) for (int y = 0; y < a.c; ++y) r.e[x][y] = op ? a.e[x][y] - b.e[x][y] : a.e[x][y] + b.e[x][y]; if (!fine(r)) break; what = text(a) + (op ? " - " : " + ") + text(b); v[k] = op ? v[i] - v[j] : v[i] + v[j]; m[k] = r; break; }
      case 2: case 3: { if (!dims) break; M2<T> r = a; for (int x = 0; x < a.r; ++x) for (int y = 0; y < a.c; ++y) r.e[x][y] = op == 3 ? a.e[x][y] - b.e[x][y] : a.e[x][y] + b.e[x][y]; if (!fine(r)) break; what = text(a) + (op == 3 ? " -= " : " += ") + text(b); Matrix<T>& q = op == 3 ? v[i] -= v[j] : v[i] += v[j]; VF_CHECK("C16:reference", &q == &v[i], "compound assignment returns another object"); m[i] = r; k = i; break; }
      case 4: { if (a.c != b.r || !small(a, 10000) || !small(b, 10000)) break; M2<T> r = mul(a, b); if (!fine(r)) break; what = text(a) + " * " + text(b); v[k] = v[i] * v[j]; m[k] = r; break; }
      case 5: { if (a.c != b.r || !small(a, 10000) || !small(b, 10000)) break; M2<T> r = mul(a, b); if (!fine(r)) break; what = text(a) + " *= " + text(b); Matrix<T>& q = v[i] *= v[j]; VF_CHECK("C16:reference", &q == &v[i], "*= returns another object"); m[i] = r; k = i; break; }
      case 6: { if (a.r != a.c) break; int e = (int)s.below(s.chance(1, 4) ? 12 : 5); M2<T> r(a.r, a.r); for (int x = 0; x < a.r; ++x) r.e[x][x] = T(1); bool ok = small(a, 100); M2<T> sq = a; for (int q = 0; q < e && ok; ++q) { r = mul(r, a); ok = small(r, 10000) && fine(r); } if (!ok) break; what = "pow(" + text(a) + ", " + std::to_string(e) + ")"; v[k] = pow(v[i], (unsigned)e); m[k] = r; break; }
      case 7: what = "copy assignment of " + text(a); v[k] = v[i]; m[k] = a; break;
      case 8: { Matrix<T> c(v[i]); VF_CHECK("C16:equal", c == v[i] && !(c != v[i]), "a copy differs from " << text(a)); int x = (int)s.below(a.r), y = (int)s.below(a.c); c[x][y] = c[x][y] + T(1); VF_CHECK("C16:equal", c != v[i] && !(c == v[i]), "a changed copy equals " << text(a)); same(v[i], a, "after changing a copy"); what = "copy"; k = i; break; }
      case 9: { what = "resize by assignment"; int r = 1 + (int)s.below(4), c = 1 + (int)s.below(4); Matrix<T> t(r, c); M2<T> u(r, c); build(s, t, u); v[k] = t; m[k] = u; break; }
      case 10: { int x = (int)s.below(a.r), y = (int)s.below(a.c); T q = Num<T>::make(s); v[i][x][y] = q; a.e[x][y] = q; what = "element store"; k = i; break; }
      case 11: { int d = 1 + (int)s.below(5); M2<T> r(d, d); for (int x = 0; x < d; ++x) r.e[x][x] = T(1); v[k] = Matrix<T>::idMat(d); m[k] = r; what = "idMat(" + std::to_string(d) + ")"; break; }
      case 12: { int r = 1 + (int)s.below(4), c = 1 + (int)s.below(4); std::vector<std::vector<int>> ini(r, std::vector<int>(c)); M2<T> u(r, c); for (int x = 0; x < r; ++x) for (int y = 0; y < c; ++y) { ini[x][y] = (int)s.range(-9, 9); u.e[x][y] = T(ini[x][y]); } v[k] = Matrix<T>(ini); m[k] = u; what = "Matrix(" + text(u) + ")"; break; }
      case 14: { Matrix<T> t(v[i]); t.clear(); if (s.chance(1, 2)) { t = v[j]; same(t, b, "assigned after clear()"); } t.clear(); t.deepCopy(v[i]); same(t, a, "deepCopy"); what = "clear"; k = i; break; }
      case 13: { Matrix<T>& al = v[i]; al = v[i]; what = "self assignment"; k = i; break; }
      default: txt(v[i], a, std::integral_constant<bool, Num<T>::text>()); what = "text"; k = i;
    }
    if (what.empty()) { vf::note("skipped: shapes or range"); continue; }
    log += "; " + what; if (log.size() > 3000) log = "..." + log.substr(log.size() - 2000);
    for (int q = 0; q < K; ++q) same(v[q], m[q], "after " + log + ": v" + std::to_string(q));
    bool eq = m[i].r == m[j].r && m[i].c == m[j].c && m[i].e == m[j].e; VF_CHECK("C16:equal", (v[i] == v[j]) == eq && (v[i] != v[j]) == !eq, "comparison of " << text(m[i]) << " and " << text(m[j]));
    ++done; vf::note("operations compared"); vf::sig(text(m[k]));
  }
  if (done > 1) vf::nontrivial(); vf::sample([&] { return log; });
}
// Elimination: reduce() leaves a row echelon form with leading ones that has the same row space.
template <class T> int rref(std::vector<std::vector<T>>& a, int r, int c) {
  int rank = 0; for (int col = 0; col < c && rank < r; ++col) { int p = rank; while (p < r && a[p][col] == T(0)) ++p; if (p == r) continue; std::swap(a[p], a[rank]); T d = a[rank][col]; for (int j = 0; j < c; ++j) a[rank][j] = a[rank][j] / d; for (int i = 0; i < r; ++i) if (i != rank) { T f = a[i][col]; for (int j = 0; j < c; ++j) a[i][j] = a[i][j] - a[rank][j] * f; } ++rank; } return rank;
}
struct Q {  // exact rational over __int128 for the reference
  __int128 n, d; Q(long long v = 0) : n(v), d(1) {} Q(__int128 a, __int128 b) : n(a), d(b) { __int128 x = n < 0 ? -n : n, y = d < 0 ? -d : d; while (y) { __int128 t = x % y; x = y; y = t; } if (x == 0) x = 1; n /= x; d /= x; if (d < 0) { n = -n; d = -d; } }
  Q operator+(const Q& o) const { return Q(n * o.d + o.n * d, d * o.d); } Q operator-(const Q& o) const { return Q(n * o.d - o.n * d, d * o.d); } Q operator*(const Q& o) const { return Q(n * o.n, d * o.d); } Q operator/(const Q& o) const { return Q(n * o.d, d * o.n); } bool operator==(const Q& o) const { return n == o.n && d == o.d; }
};
void reduceFraction(vf::Src& s) {
  int r = 1 + (int)s.below(4), c = 1 + (int)s.below(5); Matrix<Fraction> a(r, c); std::vector<std::vector<Q>> w(r, std::vector<Q>(c)); std::string t; bool sparse = s.chance(1, 2);
  std::vector<std::vector<int>> e(r, std::vector<int>(c));
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) e[i][j] = s.chance(sparse ? 3 : 1, 6) ? 0 : (int)s.range(-5, 5);
  if (r > 1 && s.chance(1, 3)) { int p = (int)s.below(r), q = (int)s.below(r), f = (int)s.range(-2, 2); for (int j = 0; j < c; ++j) e[p][j] = e[q][j] * f; }  // dependent rows
  if (c > 1 && s.chance(1, 4)) { int z = (int)s.below(c); for (int i = 0; i < r; ++i) e[i][z] = 0; }
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { a[i][j] = Fraction(e[i][j]); w[i][j] = Q(e[i][j]); t += std::to_string(e[i][j]) + (j + 1 < c ? " " : "; "); }
  vf::sig(t); vf::sample([&] { return "reduce of " + t; }); if (r > 1) vf::nontrivial();
  a.reduce(); std::vector<std::vector<Q>> x(r, std::vector<Q>(c)); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) x[i][j] = Q(a[i][j].getNumerator(), a[i][j].getDenominator());
  std::string got; for (auto& row : x) { for (auto& q : row) got += std::to_string((long long)q.n) + "/" + std::to_string((long long)q.d) + " "; got += "; "; }
  int last = -1; bool zero = false; for (int i = 0; i < r; ++i) { int p = 0; while (p < c && x[i][p] == Q(0)) ++p; if (p == c) { zero = true; continue; } VF_CHECK("C16:echelon", !zero && p > last && x[i][p] == Q(1), "reduce of " << t << " gives " << got << " which is not in echelon form with leading ones"); last = p; }
  int ra = rref(w, r, c), rb = rref(x, r, c); VF_CHECK("C16:rowspace", ra == rb && w == x, "reduce of " << t << " gives " << got << " with a different row space"); vf::note("eliminations checked");
}
void reduceDouble(vf::Src& s) {
  if (s.chance(1, 30)) { Matrix<double> e((int)s.below(4), 0); e.reduce(); Matrix<double> f(e); VF_CHECK("C16:empty", e == f, "empty matrices differ"); return; }
  // full-rank, diagonally dominant: the pivots are known in advance
  int n = 1 + (int)s.below(6), c = n + (int)s.below(3); Matrix<double> a(n, c); std::vector<std::vector<double>> w(n, std::vector<double>(c)); std::string t;
  for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) { double v = s.range(-8, 8) / 8.0 + (i == j ? (s.chance(1, 2) ? 10 : -10) : 0); a[i][j] = w[i][j] = v; t += vf::show(v) + " "; }
  vf::sig(t); vf::nontrivial(); a.reduce();
  if (s.chance(1, 3)) {
    // the same system in other units: the echelon form does not depend on the scale of the matrix
    int k = (int)s.range(-60, 60); Matrix<double> u(n, c); for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) u[i][j] = std::ldexp(w[i][j], k); Matrix<double> o(u);
    VF_CHECK("C16:equality", u == o && !(u != o), "a copy of 2^" << k << " times " << t << " differs from it");
    int p = (int)s.below(n), q = (int)s.below(c); double old = o[p][q]; o[p][q] = std::nextafter(old, s.chance(1, 2) ? 1e300 : -1e300);
    VF_CHECK("C16:equality", u != o && !(u == o), "matrices that differ by one unit in the last place of [" << p << "][" << q << "] compare equal: 2^" << k << " times " << t);
    u.reduce(); for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) VF_CHECK("C16:echelon", std::fabs(u[i][j] - a[i][j]) < 1e-9, "reduce of 2^" << k << " times " << t << " gives " << u[i][j] << " at [" << i << "][" << j << "] and " << a[i][j] << " without the factor"); vf::note("scaled eliminations checked");
  }
  for (int i = 0; i < n; ++i) { VF_CHECK("C16:echelon", a[i][i] == 1.0, "pivot " << i << " of reduce " << t << " is " << a[i][i]); for (int j = 0; j < i; ++j) VF_CHECK("C16:echelon", a[i][j] == 0.0, "below pivot in reduce of " << t << ": " << a[i][j]); }
  // back substitution must solve the same systems
  for (int col = n; col < c; ++col) { std::vector<double> x(n); for (int i = n; i-- > 0;) { x[i] = a[i][col]; for (int j = i + 1; j < n; ++j) x[i] -= a[i][j] * x[j]; } for (int i = 0; i < n; ++i) { double b = 0; for (int j = 0; j < n; ++j) b += w[i][j] * x[j]; VF_CHECK("C16:rowspace", std::fabs(b - w[i][col]) < 1e-9, "reduce of " << t << " changes the solutions of the system"); } }
  vf::note("eliminations checked");
}
void mismatch(vf::Src& s) {
  int r = 1 + (int)s.below(4), c = 1 + (int)s.below(4), r2 = 1 + (int)s.below(4), c2 = 1 + (int)s.below(4), op = (int)s.below(6); Matrix<int> a(r, c), b(r2, c2); bool bad = op < 2 ? c != r2 : r != r2 || c != c2;
  if (!bad) return; vf::sig((uint64_t)op * 1000 + r * 64 + c * 16 + r2 * 4 + c2); vf::nontrivial(); std::string d;
  int st = vf::real_child([&] { signal(SIGABRT, SIG_DFL); switch (op) { case 0: { Matrix<int> x = a * b; break; } case 1: a *= b; break; case 2: { Matrix<int> x = a + b; break; } case 3: a += b; break; case 4: { Matrix<int> x = a - b; break; } default: a -= b; } }, d);
  VF_CHECK("C16:mismatch", ((WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) || (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE)) && !d.empty() && d.find("Sanitizer") == std::string::npos && d.find("runtime error") == std::string::npos, "operation " << op << " on " << r << "x" << c << " and " << r2 << "x" << c2 << " matrices is not rejected; status " << st << " diagnostic " << vf::quote(d.substr(0, 200)));
  vf::note("shape mismatches rejected");
}
// Shapes past the range of a short index, and eliminations with hundreds of rows.
template <class T> void shape(int r, int c) {
  auto f = [](int i, int j) { return T((i * 131 + j * 71 + 5) % 19 - 9); }; auto g = [](int i, int j) { return T((i * 17 + j * 37 + 3) % 23 - 11); }; std::string w = std::to_string(r) + "x" + std::to_string(c);
  Matrix<T> a(r, c), b(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { VF_CHECK("C16:value", a[i][j] == T(0), "a new " << w << " matrix is not zero at [" << i << "][" << j << "]"); a[i][j] = f(i, j); b[i][j] = g(i, j); }
  Matrix<T> p = a + b, m = a - b, p2(a), m2(1, 1); m2 = a; p2 += b; m2 -= b;
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { T x = f(i, j), y = g(i, j); VF_CHECK("C16:value", p[i][j] == x + y && p2[i][j] == x + y && m[i][j] == x - y && m2[i][j] == x - y && a[i][j] == x && b[i][j] == y, "sums and differences of " << w << " matrices at [" << i << "][" << j << "]"); }
  Matrix<T> d(a); VF_CHECK("C16:equal", d == a && !(d != a), "a copy of a " << w << " matrix differs"); d[r - 1][c - 1] = d[r - 1][c - 1] + T(1); VF_CHECK("C16:equal", d != a && !(d == a), "a " << w << " matrix with a changed last element compares equal"); d.deepCopy(a); d[0][0] = d[0][0] + T(1); VF_CHECK("C16:equal", d != a, "a " << w << " matrix with a changed first element compares equal");
  std::string t; for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) t += (j ? ", " : "") + std::to_string(f(i, j)); t += "\n"; } VF_CHECK("C16:text", a.toString() == t, "text of a " << w << " matrix");
  // thin products
  { int k = r < 300 ? r : 2; Matrix<T> u(k, r); for (int i = 0; i < k; ++i) for (int j = 0; j < r; ++j) u[i][j] = T((i * 3 + j) % 5 - 2); int cc = c < 300 ? c : 300; if ((long long)k * r * c > 9000000) return; Matrix<T> q = u * a; u *= a; for (int i = 0; i < k; ++i) for (int j = 0; j < c; ++j) { if (j > cc && j + 3 < c) continue; T e(0); for (int x = 0; x < r; ++x) e = e + T((i * 3 + x) % 5 - 2) * f(x, j); VF_CHECK("C16:value", q[i][j] == e && u[i][j] == e, "product with a " << w << " matrix at [" << i << "][" << j << "]"); } }
  vf::note("large shapes compared");
}
void once() {
  shape<int>(130, 140); shape<int>(260, 131); shape<int>(1, 40000); shape<int>(40000, 1); shape<long long>(2, 33000); shape<int>(33000, 2); shape<int>(70000, 1); shape<int>(1, 70000); shape<double>(150, 3);
  for (int n : {150, 300}) { Matrix<int> d = Matrix<int>::idMat(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) VF_CHECK("C16:value", d[i][j] == (i == j), "idMat(" << n << ")[" << i << "][" << j << "]"); Matrix<int> e(std::vector<std::vector<int>>(n, std::vector<int>(3, 7))); for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) VF_CHECK("C16:value", e[i][j] == 7, "Matrix(list) with " << n << " rows"); }
  { int n = 140; Matrix<int> p(n); for (int i = 0; i < n; ++i) p[i][(i + 1) % n] = 1; Matrix<int> q = pow(p, (unsigned)(n - 1)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) VF_CHECK("C16:value", q[i][j] == (j == (i + n - 1) % n), "power of a " << n << "x" << n << " cyclic shift"); Matrix<int> one(1); one[0][0] = 3; Matrix<int> u(1); u[0][0] = -1; VF_CHECK("C16:value", pow(u, 4294967295u)[0][0] == -1 && pow(u, 2147483648u)[0][0] == 1 && pow(u, 70001u)[0][0] == -1, "large exponents"); }
  // pivots far down and far right: an anti-diagonal, and a single non-zero entry
  for (int n : {3, 150, 300}) { Matrix<double> a(n, n + 1); for (int i = 0; i < n; ++i) { a[i][n - 1 - i] = i + 2; a[i][n] = (i + 2) * 3.0; } a.reduce(); for (int i = 0; i < n; ++i) for (int j = 0; j <= n; ++j) VF_CHECK("C16:echelon", std::fabs(a[i][j] - (i == j ? 1 : j == n ? 3 : 0)) < 1e-12, "reduce of a " << n << "-row anti-diagonal system at [" << i << "][" << j << "]"); }
  for (int n : {150, 40000}) { Matrix<double> a(n, 1), b(1, n); a[n - 1][0] = 4; b[0][n - 1] = 4; a.reduce(); b.reduce(); for (int i = 0; i < n; ++i) { VF_CHECK("C16:echelon", a[i][0] == (i == 0), "reduce of a column with one entry in row " << n - 1 << ", at row " << i); VF_CHECK("C16:echelon", b[0][i] == (i == n - 1), "reduce of a row with one entry in column " << n - 1 << ", at column " << i); } vf::note("large eliminations checked"); }
}
}  // namespace
VF_HARNESS2(C16, true, once) {
  int k = (int)s.below(100);
  if (k < 25) history<int>(s); else if (k < 40) history<long long>(s); else if (k < 55) history<double>(s); else if (k < 75) history<Fraction>(s); else if (k < 90) reduceFraction(s); else if (k < 98 || vf::mt() || !s.chance(1, 8)) reduceDouble(s); else mismatch(s);
}
