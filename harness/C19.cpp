// Points, lines and circles against extended-precision references; results stay within the rounding bound.
#include "geometry/Circle.h"
#include "geometry/Line.h"
#include "geometry/Point.h"
#include "vf.h"
#include <functional>
#include <memory>
namespace {
typedef long double L;
const L E = 2.220446049250313e-16L;
double coord1(vf::Src& s, int k) {
  switch (k) { case 0: return (double)s.range(-10, 10); case 1: return s.real(-100, 100); case 2: return s.range(-1000, 1000) / 8.0; case 3: return s.real(-1e6, 1e6); case 4: return s.real(-1, 1) * 1e-3; default: return s.real(-1, 1) * 1e-7; }
}
double coord(vf::Src& s, int k) { double x = coord1(s, k); return std::fabs(x) < 1e-9 ? 0 : x; }  // magnitudes 1e-9 .. 1e6
template <int N> std::string str(const cuhksz::Point<N>& p) { std::string t = "("; for (int i = 0; i < N; ++i) t += (i ? ", " : "") + vf::show(p[i]); return t + ")"; }
bool near(L g, L w, L scale) { return std::isfinite((double)g) && fabsl(g - w) <= 8 * E * scale + 1e-300L; }
template <int N> struct Mk { static cuhksz::Point<N> of(const double* v) { cuhksz::Point<N> p; for (int i = 0; i < N; ++i) p[i] = v[i]; return p; } };
template <> struct Mk<1> { static cuhksz::Point<1> of(const double* v) { return cuhksz::Point<1>(v[0]); } };
template <> struct Mk<2> { static cuhksz::Point<2> of(const double* v) { return cuhksz::Point<2>(v[0], v[1]); } };
template <> struct Mk<3> { static cuhksz::Point<3> of(const double* v) { return cuhksz::Point<3>(v[0], v[1], v[2]); } };
template <int N> void same(const cuhksz::Point<N>& p, const double* v, const char* what) { for (int i = 0; i < N; ++i) VF_CHECK("C19:value", p[i] == v[i], what << ": coordinate " << i << " is " << p[i] << ", expected " << v[i]); }
void cr(vf::Src&, const cuhksz::Point<2>& a, const cuhksz::Point<2>& b) { L w = (L)a[0] * b[1] - (L)a[1] * b[0]; VF_CHECK("C19:cross", near(cross(a, b), w, fabsl((L)a[0] * b[1]) + fabsl((L)a[1] * b[0])), "cross of " << str(a) << " and " << str(b) << " is " << cross(a, b)); }
template <int N> void cr(vf::Src&, const cuhksz::Point<N>&, const cuhksz::Point<N>&) {}
template <int N> void points(vf::Src& s) {
  typedef cuhksz::Point<N> P; int k = (int)s.below(6); double av[N], bv[N]; for (int i = 0; i < N; ++i) { av[i] = coord(s, k); bv[i] = s.chance(1, 4) ? av[i] : coord(s, k); }
  P z; for (int i = 0; i < N; ++i) VF_CHECK("C19:zero", z[i] == 0, "default point has coordinate " << z[i]);
  P a = Mk<N>::of(av), b = Mk<N>::of(bv); same(a, av, "construction"); double c = s.chance(1, 3) ? (double)s.range(-5, 5) : s.real(-1000, 1000); if (std::fabs(c) < 1e-9) c = 0; vf::nontrivial(); vf::sig(str(a) + str(b)); vf::sample([&] { return str(a) + " " + str(b) + " scale " + vf::show(c); });
  std::string w = str(a) + " and " + str(b) + " constant " + vf::show(c);
  P sum = a + b, dif = a - b, sc = a * c, sc2 = c * a; P cs = a, cd = a, cm = a; P &r1 = cs += b, &r2 = cd -= b, &r3 = cm *= c; VF_CHECK("C19:reference", &r1 == &cs && &r2 == &cd && &r3 == &cm, "compound assignment returns another object");
  L dot_ = 0, mag = 0, sq = 0; for (int i = 0; i < N; ++i) {
    L e = E * 4; auto ok = [&](double g, L x, L m) { return fabsl((L)g - x) <= e * m + 1e-320L; };
    L A = av[i], B = bv[i]; VF_CHECK("C19:add", ok(sum[i], A + B, fabsl(A) + fabsl(B)) && ok(cs[i], A + B, fabsl(A) + fabsl(B)), "sum of " << w << ": coordinate " << i << " is " << sum[i] << " / " << cs[i]);
    VF_CHECK("C19:subtract", ok(dif[i], A - B, fabsl(A) + fabsl(B)) && ok(cd[i], A - B, fabsl(A) + fabsl(B)), "difference of " << w << ": coordinate " << i << " is " << dif[i] << " / " << cd[i]);
    VF_CHECK("C19:scale", ok(sc[i], A * c, fabsl(A * c)) && ok(sc2[i], A * c, fabsl(A * c)) && ok(cm[i], A * c, fabsl(A * c)), "multiple of " << w << ": coordinate " << i << " is " << sc[i] << " / " << sc2[i] << " / " << cm[i]);
    dot_ += A * B; mag += fabsl(A * B); sq += A * A; }
  if (c != 0) { P q = a / c, cq = a; P& r4 = cq /= c; VF_CHECK("C19:reference", &r4 == &cq, "/= returns another object"); for (int i = 0; i < N; ++i) { L x = (L)av[i] / c; VF_CHECK("C19:divide", fabsl(q[i] - x) <= 4 * E * fabsl(x) + 1e-320L && fabsl(cq[i] - x) <= 4 * E * fabsl(x) + 1e-320L, "quotient of " << w << ": coordinate " << i << " is " << q[i] << " / " << cq[i]); } }
  same(a, av, "operand after arithmetic"); same(b, bv, "operand after arithmetic");
  VF_CHECK("C19:dot", near(a * b, dot_, mag * N) && near(dot(a, b), dot_, mag * N), "dot product of " << w << " is " << a * b << " / " << dot(a, b) << ", expected " << (double)dot_); cr(s, a, b);
  VF_CHECK("C19:len", near(a.len(), sqrtl(sq), sqrtl(sq) * N), "length of " << str(a) << " is " << a.len()); same(a, av, "operand after len()");
  if (sq > 0) { P u = a; u.normalize(); L l = sqrtl(sq); for (int i = 0; i < N; ++i) VF_CHECK("C19:normalize", near(u[i], av[i] / l, N + 1), "normalize of " << str(a) << ": coordinate " << i << " is " << u[i]); VF_CHECK("C19:normalize", near(u.len(), 1, N + 2), "length after normalize of " << str(a) << " is " << u.len()); }
  int lex = 0; for (int i = 0; i < N && !lex; ++i) lex = av[i] < bv[i] ? -1 : av[i] > bv[i]; VF_CHECK("C19:order", (a < b) == (lex < 0) && (a <= b) == (lex <= 0) && (a > b) == (lex > 0) && (a >= b) == (lex >= 0), "lexicographic order of " << w);
  // equality tolerance 1e-6 per coordinate
  double off = s.chance(1, 2) ? 0.9e-6 * s.unit() : 1.1e-6 + s.unit() * (s.chance(1, 2) ? 1e-6 : 1); if (s.chance(1, 2)) off = -off; int at = (int)s.below(N); P d = a; d[at] = d[at] + off; double real = std::fabs(d[at] - av[at]); if (real < 0.95e-6 || real > 1.05e-6) VF_CHECK("C19:equal", (a == d) == (real < 1e-6) && (a != d) == (real > 1e-6) && (d == a) == (real < 1e-6), "equality of points " << real << " apart in coordinate " << at);
  VF_CHECK("C19:equal", a == a && !(a != a), "a point differs from itself"); P cp(a); P as; P& r5 = as = a; VF_CHECK("C19:reference", &r5 == &as, "assignment returns another object"); cp[at] = cp[at] + 3; same(a, av, "original after changing a copy"); same(as, av, "assigned point"); as = *&as; same(as, av, "self assignment"); cs = a; cs += cs; for (int i = 0; i < N; ++i) VF_CHECK("C19:add", cs[i] == av[i] + av[i], "a += a"); cs = a; cs -= cs; for (int i = 0; i < N; ++i) VF_CHECK("C19:subtract", cs[i] == 0, "a -= a");
  std::ostringstream o, x; o << a; x << "("; for (int i = 0; i < N; ++i) { if (i) x << ", "; x << av[i]; } x << ")"; VF_CHECK("C19:text", o.str() == x.str(), "text is " << o.str() << ", expected " << x.str()); vf::note("points compared");
}
void lines(vf::Src& s) {
  typedef cuhksz::Point<2> P; int k = (int)s.below(4); P A(coord(s, k), coord(s, k)), B(coord(s, k), coord(s, k)), v(coord(s, k), coord(s, k)), u(coord(s, k), coord(s, k)), Q(coord(s, k), coord(s, k)); bool axis = s.chance(1, 5); if (axis) { if (s.chance(1, 2)) v[0] = 0; else v[1] = 0; }
  L lv = hypotl(v[0], v[1]), lu = hypotl(u[0], u[1]); if (lv < 1e-2L) { v = P(1, axis ? 0 : 1); lv = hypotl(v[0], v[1]); } if (lu < 1e-2L) { u = P(-1, 2); lu = hypotl(5.0L, 0) > 0 ? sqrtl(5.0L) : 0; }
  if (s.chance(1, 3)) { double t = s.chance(1, 3) ? (double)s.below(3) - 0.5 : s.real(-2, 3); double h = s.chance(1, 2) ? 0 : s.real(-5, 5); Q = P(A[0] + t * v[0] - h * v[1], A[1] + t * v[1] + h * v[0]); }  // before, on, beyond the segment
  std::string w = str(A) + "+t" + str(v) + ", point " + str(Q); vf::sig(w); vf::nontrivial(); vf::sample([&] { return w; });
  std::unique_ptr<cuhksz::Line> tmp(new cuhksz::Line(A, v)); cuhksz::Line l(*tmp), l2(B, u), l3(B, u); l3 = *tmp; tmp.reset(); l3 = *&l3;
  L qx = (L)Q[0] - A[0], qy = (L)Q[1] - A[1], cr = (L)v[0] * qy - (L)v[1] * qx, dt = (L)v[0] * qx + (L)v[1] * qy, lq = hypotl(qx, qy), big = fabsl(A[0]) + fabsl(A[1]) + fabsl(Q[0]) + fabsl(Q[1]) + lv + lq; L d = fabsl(cr) / lv, tol = 64 * E * big;
  double g = disToLine(Q, l), g3 = disToLine(Q, l3); VF_CHECK("C19:disToLine", fabsl(g - d) <= tol && g >= 0, "distance from line " << w << " is " << g << ", expected " << (double)d); VF_CHECK("C19:copy", g3 == g, "an assigned line has distance " << g3 << " instead of " << g);
  L t = dt / (lv * lv), ds = t <= 0 ? lq : t >= 1 ? hypotl(qx - v[0], qy - v[1]) : d; L slack = 1.2e-6L / lv;  // the library treats |dot| < 1e-6 as zero
  double h = disToSegment(Q, l); VF_CHECK("C19:disToSegment", fabsl(h - ds) <= tol + ((fabsl(dt) < 2e-6L + tol * lv || fabsl(dt - lv * lv) < 2e-6L + tol * lv) ? slack + tol : 0) && h >= 0, "distance from segment " << w << " is " << h << ", expected " << (double)ds); VF_CHECK("C19:copy", disToSegment(Q, l3) == h, "an assigned line differs in segment distance");
  VF_CHECK("C19:len", near(l.len(), lv, lv * 2), "length of segment " << w << " is " << l.len());
  L cx = (L)v[0] * u[1] - (L)v[1] * u[0]; if (fabsl(cx) > 1e-3L * lv * lu) { P x = getIntersection(l, l2), y = getIntersection(l2, l); L cond = lv * lu / fabsl(cx); L sc = fabsl(A[0]) + fabsl(A[1]) + fabsl(B[0]) + fabsl(B[1]) + lv + lu; L ux = (L)A[0] - B[0], uy = (L)A[1] - B[1], tt = ((L)u[0] * uy - (L)u[1] * ux) / cx; L ex = A[0] + tt * v[0], ey = A[1] + tt * v[1]; L tl = 64 * E * sc * cond * (1 + cond);
    VF_CHECK("C19:intersection", fabsl(x[0] - ex) <= tl && fabsl(x[1] - ey) <= tl && fabsl(y[0] - ex) <= tl && fabsl(y[1] - ey) <= tl, "intersection of " << str(A) << "+t" << str(v) << " and " << str(B) << "+t" << str(u) << " is " << str(x) << " / " << str(y) << ", expected (" << (double)ex << ", " << (double)ey << ")"); vf::note("intersections compared"); }
  vf::note("distances compared");
}
void circles(vf::Src& s) {
  typedef cuhksz::Point<2> P; const L PI_ = 3.14159265358979323846L; int k = (int)s.below(4); P O(coord(s, k), coord(s, k)); double r = s.chance(1, 4) ? (double)s.below(10) : s.unit() * 1000, a = s.chance(1, 3) ? (double)s.range(-8, 8) * 0.7853981633974483 : s.real(-50, 50); int how = (int)s.below(4); cuhksz::Circle c; if (how == 0) { O = P(0, 0); r = 1; } else if (how == 1) { c = cuhksz::Circle(r); O = P(0, 0); } else if (how == 2) { c = cuhksz::Circle(O); r = 1; } else c = cuhksz::Circle(O, r);
  std::string w = "circle " + str(O) + " radius " + vf::show(r) + " angle " + vf::show(a); vf::sig(w); vf::nontrivial(); vf::sample([&] { return w; });
  VF_CHECK("C19:area", fabsl(c.getArea() - PI_ * r * r) <= 1e-7L * r * r, "area of " << w << " is " << c.getArea()); VF_CHECK("C19:perimeter", fabsl(c.getPerimeter() - 2 * PI_ * r) <= 2e-7L * r, "perimeter of " << w << " is " << c.getPerimeter());
  P p = c.getPoint(a); L tol = 16 * E * (fabsl(O[0]) + fabsl(O[1]) + r * (1 + fabsl((L)a))); VF_CHECK("C19:getPoint", fabsl(p[0] - (O[0] + r * cosl(a))) <= tol && fabsl(p[1] - (O[1] + r * sinl(a))) <= tol, "point of " << w << " is " << str(p)); P p2 = c.getPoint(a); VF_CHECK("C19:getPoint", p2[0] == p[0] && p2[1] == p[1] && fabsl(c.getArea() - PI_ * r * r) <= 1e-7L * r * r, "a query changes " << w); vf::note("circles compared");
}
// As many coordinates as a short cannot count.
template <int N> void wide() {
  typedef cuhksz::Point<N> P; std::unique_ptr<P> a(new P), b(new P), c(new P); auto f = [](int i) { return (double)((i * 131 + 7) % 41 - 20); }; auto g = [](int i) { return (double)((i * 17 + 3) % 29 - 14); }; double dt = 0, sq = 0; for (int i = 0; i < N; ++i) { VF_CHECK("C19:zero", (*a)[i] == 0, "default point of dimension " << N << ", coordinate " << i); (*a)[i] = f(i); (*b)[i] = g(i); dt += f(i) * g(i); sq += f(i) * f(i); }
  auto all = [&](const P& p, const char* what, const std::function<double(int)>& e) { for (int i = 0; i < N; ++i) VF_CHECK("C19:value", p[i] == e(i), what << " in dimension " << N << ": coordinate " << i << " is " << p[i] << ", expected " << e(i)); };
  all(*a + *b, "sum", [&](int i) { return f(i) + g(i); }); all(*a - *b, "difference", [&](int i) { return f(i) - g(i); }); all(*a * 4.0, "multiple", [&](int i) { return f(i) * 4; }); all(4.0 * *a, "multiple", [&](int i) { return f(i) * 4; }); all(*a / 4.0, "quotient", [&](int i) { return f(i) / 4; });
  *c = *a; all(*c, "assigned", f); *c += *b; all(*c, "+=", [&](int i) { return f(i) + g(i); }); *c -= *b; all(*c, "-=", f); *c *= 2.0; all(*c, "*=", [&](int i) { return f(i) * 2; }); *c /= 2.0; all(*c, "/=", f); { std::unique_ptr<P> d(new P(*a)); all(*d, "copy", f); }
  VF_CHECK("C19:dot", *a * *b == dt && dot(*a, *b) == dt, "dot product in dimension " << N); VF_CHECK("C19:len", std::fabs(a->len() - std::sqrt(sq)) <= 1e-9 * std::sqrt(sq), "length in dimension " << N << " is " << a->len());
  for (int at : {0, 100, 130, 140, N - 1}) { if (at >= N) continue; *c = *a; VF_CHECK("C19:equal", *c == *a && !(*c != *a) && !(*c < *a) && *c <= *a && *c >= *a && !(*c > *a), "equal points in dimension " << N); (*c)[at] = f(at) + 1; VF_CHECK("C19:order", *a < *c && *a <= *c && !(*a > *c) && !(*a >= *c) && *c > *a && !(*a == *c) && *a != *c, "order of points that differ in coordinate " << at << " of " << N); }
  *c = *a; c->normalize(); for (int i = 0; i < N; ++i) VF_CHECK("C19:normalize", std::fabs((*c)[i] - f(i) / std::sqrt(sq)) < 1e-12, "normalize in dimension " << N << ": coordinate " << i); std::ostringstream o, x; o << *a; x << "("; for (int i = 0; i < N; ++i) { if (i) x << ", "; x << f(i); } x << ")"; VF_CHECK("C19:text", o.str() == x.str(), "text in dimension " << N); vf::note("high-dimensional points");
}
void once() { wide<150>(); wide<300>(); wide<40000>(); }
}  // namespace
VF_HARNESS2(C19, true, once) { switch (s.below(10)) { case 0: points<1>(s); break; case 1: case 2: points<2>(s); break; case 3: points<3>(s); break; case 4: points<5>(s); break; case 5: circles(s); break; default: lines(s); } }
