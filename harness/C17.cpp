// Integer mathematics: gcd, lcm, powers, factorial, permutation, binomial are exact whenever the result fits the type.
#include "math_utils/Fraction.h"
#include "math_utils/math_functions.h"
#include "vf.h"
#include <limits>
namespace {
typedef __int128 W;
std::string str(W v) { if (!v) return "0"; std::string t; bool n = v < 0; while (v) { int d = (int)(v % 10); t.insert(t.begin(), (char)('0' + (d < 0 ? -d : d))); v /= 10; } return n ? "-" + t : t; }
W ab(W v) { return v < 0 ? -v : v; }
template <class T> bool fits(W v) { return v >= (W)std::numeric_limits<T>::min() && v <= (W)std::numeric_limits<T>::max(); }
template <class T> T any(vf::Src& s) {  // any value but the minimum of a signed type
  long long lo = std::is_signed<T>::value ? (long long)std::numeric_limits<T>::min() + 1 : 0, hi = sizeof(T) == 8 && !std::is_signed<T>::value ? 9223372036854775807ll : (long long)std::numeric_limits<T>::max();
  switch (s.below(5)) { case 0: return (T)s.range(lo, hi); case 1: return (T)s.range(std::max(lo, -1000ll), std::min(hi, 1000ll)); case 2: return (T)(lo + (long long)s.below(3)); case 3: return (T)(hi - (long long)s.below(3)); default: return (T)s.range(std::max(lo, -20ll), std::min(hi, 20ll)); }
}
template <class T> std::string name() { return std::string(std::is_signed<T>::value ? "int" : "uint") + std::to_string(sizeof(T) * 8); }
template <class A, class B> void gcdlcm(vf::Src& s) {
  typedef typename std::common_type<A, B>::type C; W x, y; A a; B b;
  if (s.chance(1, 2)) { a = any<A>(s); b = any<B>(s); } else {  // shared factors
    W f = 1 + (W)s.below(s.chance(1, 3) ? 100000 : 50), p = (W)s.range(-3000, 3000) * f, q = (W)s.range(-3000, 3000) * f; if (!std::is_signed<A>::value) p = ab(p); if (!std::is_signed<B>::value) q = ab(q); if (!fits<A>(p) || !fits<B>(q)) { p = 12; q = 18; } a = (A)p; b = (B)q; }
  if (std::is_signed<C>::value != std::is_signed<A>::value || std::is_signed<C>::value != std::is_signed<B>::value) { if (a < 0) a = (A)-a; if (b < 0) b = (B)-b; }  // mixed signedness: non-negative values only
  x = (W)a; y = (W)b; W g = 0; { W p = ab(x), q = ab(y); while (q) { W t = p % q; p = q; q = t; } g = p; }
  std::string w = "(" + str(x) + " as " + name<A>() + ", " + str(y) + " as " + name<B>() + ")"; vf::sig(w); if (g > 1) vf::nontrivial(); vf::sample([&] { return "gcd/lcm " + w; });
  C got = cuhksz::gcd(a, b); VF_CHECK("C17:gcd", ab((W)got) == g, "gcd" << w << " is " << str((W)got) << ", expected magnitude " << str(g)); if (x >= 0 && y >= 0) VF_CHECK("C17:gcd", (W)got == g, "gcd" << w << " is negative: " << str((W)got));
  vf::note("gcd compared");
  if (g == 0) return; W l = ab(x) / g * ab(y); if (!fits<C>(l)) { vf::note("lcm would not fit"); return; }
  C lm = cuhksz::lcm(a, b); VF_CHECK("C17:lcm", ab((W)lm) == l, "lcm" << w << " is " << str((W)lm) << ", expected magnitude " << str(l)); if (x >= 0 && y >= 0) VF_CHECK("C17:lcm", (W)lm == l, "lcm" << w << " is negative: " << str((W)lm)); vf::note("lcm compared");
}
bool power(W b, long long e, W& r) {  // false when it leaves int64
  r = 1; if (e == 0 || b == 1) return true; if (b == 0) { r = 0; return true; } if (b == -1) { r = e % 2 ? -1 : 1; return true; }
  for (long long i = 0; i < e; ++i) { r *= b; if (!fits<int64_t>(r)) return false; } return true;
}
long long baseFor(vf::Src& s, int& e) {
  static const int up[] = {0, 62, 39, 31, 27, 24, 22, 20, 19, 18};
  switch (s.below(7)) { case 0: e = (int)s.range(0, 2147483647); return (long long)s.below(3) - 1; case 1: { int b = 2 + (int)s.below(9); e = up[b - 1 < 10 ? b - 1 : 9] - (int)s.below(4) + 1; if (e < 0) e = 0; return s.chance(1, 2) ? b : -b; } case 2: e = (int)s.below(4); return s.range(-3037000499ll, 3037000499ll); case 3: e = (int)s.below(2); return s.range(-9223372036854775807ll - 1, 9223372036854775807ll); case 4: e = (int)s.below(64); return s.chance(1, 2) ? 2 : -2; default: e = (int)s.below(21); return s.range(-60, 60); }
}
void pows(vf::Src& s) {
  int e = 0; long long b = baseFor(s, e); W r; std::string w = "(" + std::to_string(b) + ", " + std::to_string(e) + ")"; vf::sig(w);
  if (power(b, e, r)) { vf::nontrivial(); vf::sample([&] { return "powers of " + w; }); int64_t g = cuhksz::binaryPow(b, e); VF_CHECK("C17:binaryPow", g == r, "binaryPow" << w << " is " << g << ", expected " << str(r));
    int64_t h = cuhksz::genericBinaryPow((int64_t)b, e); VF_CHECK("C17:genericBinaryPow", h == r, "genericBinaryPow" << w << " is " << h << ", expected " << str(r)); long long le = e; h = cuhksz::genericBinaryPow((int64_t)b, le); VF_CHECK("C17:genericBinaryPow", h == r, "genericBinaryPow with long long exponent " << w << " is " << h);
    h = cuhksz::genericBinaryPow((int64_t)b, (unsigned)e); VF_CHECK("C17:genericBinaryPow", h == r, "genericBinaryPow with unsigned exponent " << w << " is " << h); if (e < 30000) { h = cuhksz::genericBinaryPow((int64_t)b, (short)e); VF_CHECK("C17:genericBinaryPow", h == r, "genericBinaryPow with short exponent " << w << " is " << h); }
    if (fits<int>(b) && fits<int>(r)) { int q = cuhksz::genericBinaryPow((int)b, e); VF_CHECK("C17:genericBinaryPow", q == r, "genericBinaryPow<int>" << w << " is " << q); }
    vf::note("powers compared"); } else vf::note("power would not fit");
}
// A type with an explicit product only: multiplication modulo a prime with a multiplication log.
struct Mod { unsigned v; explicit Mod(const char*) : v(0) {} Mod() : v(1) {} Mod& operator*=(const Mod& o) { v = (unsigned)((unsigned long long)v * o.v % 1000003u); return *this; } };
struct Aff { long long a, b; Aff& operator*=(const Aff& o) { long long x = a * o.a % 10007, y = (a * o.b + b) % 10007; a = x; b = y; return *this; } };  // affine maps: associative, commuting powers
void pows2(vf::Src& s) {
  vf::nontrivial(); long long e = s.chance(1, 3) ? s.range(1, 4000) : 1 + (long long)s.below(70);
  switch (s.below(4)) {
    case 0: { uint64_t b = s.next64(), r = 1; for (long long i = 0; i < e; ++i) r *= b; uint64_t g = cuhksz::genericBinaryPow(b, e); VF_CHECK("C17:genericBinaryPow", g == r, "genericBinaryPow<uint64>(" << b << ", " << e << ") is " << g << ", expected " << r); vf::sig(b ^ e); break; }
    case 1: { Mod b; b.v = (unsigned)s.below(1000003); unsigned r = 1; for (long long i = 0; i < e; ++i) r = (unsigned)((unsigned long long)r * b.v % 1000003u); Mod g = cuhksz::genericBinaryPow(b, e); VF_CHECK("C17:genericBinaryPow", g.v == r, "genericBinaryPow of residue " << b.v << " to " << e << " is " << g.v << ", expected " << r); vf::sig((uint64_t)b.v * 5003 + e); Mod z = b; vf::must_reject("C17:exponent", [&] { Mod q = cuhksz::genericBinaryPow(z, -(int)e % 2); (void)q; }, [&] { return std::string("non-positive exponent without a one"); }); break; }
    case 2: { Aff b = {(long long)s.below(10007), (long long)s.below(10007)}, r = {1, 0}; for (long long i = 0; i < e; ++i) r *= b; Aff g = cuhksz::genericBinaryPow(b, (int)e); VF_CHECK("C17:genericBinaryPow", g.a == r.a && g.b == r.b, "genericBinaryPow of affine map to " << e << " is wrong"); vf::sig((uint64_t)b.a * 20011 + b.b + e * 977); break; }
    default: { int p = (int)s.range(-9, 9), q = (int)s.range(1, 9), x = (int)s.below(9); W n = 1, d = 1; for (int i = 0; i < x; ++i) { n *= p; d *= q; } cuhksz::Fraction g = cuhksz::genericBinaryPow(cuhksz::Fraction(p, q), x); VF_CHECK("C17:genericBinaryPow", (W)g.getNumerator() * d == n * g.getDenominator(), "genericBinaryPow of " << p << "/" << q << " to " << x << " is " << vf::show(g)); vf::sig((uint64_t)(p + 10) * 1000 + q * 20 + x); }
  }
  vf::note("powers compared");
}
template <class T> void counting(vf::Src& s) {
  // n and r such that everything fits T; limits found by exact reference
  int n = (int)s.below(s.chance(1, 3) ? 70 : 24), r = (int)s.below(n + 1); if (n > (long long)std::numeric_limits<T>::max()) return; std::string w = "(" + std::to_string(n) + ", " + std::to_string(r) + ") as " + name<T>(); vf::sig(w); if (n > 2) vf::nontrivial(); vf::sample([&] { return "counting functions at " + w; });
  W f = 1; bool ok = true; for (int i = 2; i <= n && ok; ++i) { f *= i; ok = fits<T>(f); } if (ok) { T g = cuhksz::factorial((T)n); VF_CHECK("C17:factorial", (W)g == f, "factorial" << w << " is " << str((W)g) << ", expected " << str(f)); vf::note("factorials compared"); }
  f = 1; ok = true; for (int i = 0; i < r && ok; ++i) { f *= n - i; ok = fits<T>(f); } if (ok) { T g = cuhksz::permutation((T)n, (T)r); VF_CHECK("C17:permutation", (W)g == f, "permutation" << w << " is " << str((W)g) << ", expected " << str(f)); vf::note("permutations compared"); }
  f = 1; int k = std::min(r, n - r); for (int i = 1; i <= k; ++i) f = f * (n - k + i) / i; if (fits<T>(f)) { T g = cuhksz::binomial((T)n, (T)r); VF_CHECK("C17:binomial", (W)g == f, "binomial" << w << " is " << str((W)g) << ", expected " << str(f)); vf::note("binomials compared"); }
}
void bigbinom(vf::Src& s) {  // large n, small r (or n-r)
  long long n = s.range(60, s.chance(1, 10) ? 20000 : 1500); int k = (int)s.below(6); W f = 1; for (int i = 1; i <= k; ++i) f = f * (n - k + i) / i; if (!fits<int64_t>(f)) return; long long r = s.chance(1, 2) ? k : n - k; vf::nontrivial(); vf::sig((uint64_t)n * 16 + r);
  int64_t g = cuhksz::binomial((int64_t)n, (int64_t)r); VF_CHECK("C17:binomial", (W)g == f, "binomial(" << n << ", " << r << ") is " << g << ", expected " << str(f)); if (fits<int>(f)) { int h = cuhksz::binomial((int)n, (int)r); VF_CHECK("C17:binomial", h == f, "binomial<int>(" << n << ", " << r << ") is " << h); }
  f = 1; bool ok = true; for (int i = 0; i < k && ok; ++i) { f *= n - i; ok = fits<int64_t>(f); } if (ok) { int64_t p = cuhksz::permutation((int64_t)n, (int64_t)k); VF_CHECK("C17:permutation", p == f, "permutation(" << n << ", " << k << ") is " << p << ", expected " << str(f)); } vf::note("binomials compared");
}
void rejects(vf::Src& s) {
  int bad = -1 - (int)s.below(s.chance(1, 2) ? 3 : 2000000000); int n = (int)s.below(30), r = n + 1 + (int)s.below(5); vf::sig((uint64_t)(unsigned)bad * 31 + n); vf::nontrivial(); int k = (int)s.below(8); std::string w = "kind " + std::to_string(k) + " n=" + std::to_string(n) + " r=" + std::to_string(r) + " bad=" + std::to_string(bad);
  vf::must_reject("C17:reject", [&] { switch (k) { case 0: cuhksz::factorial(bad); break; case 1: cuhksz::permutation(n, r); break; case 2: cuhksz::permutation(n, bad); break; case 3: cuhksz::binomial(n, r); break; case 4: cuhksz::binomial(bad, n); break; case 5: cuhksz::binaryPow(n, bad); break; case 6: cuhksz::genericBinaryPow(n, bad); break; default: cuhksz::permutation(bad, n); } }, [&] { return w; });
}
}  // namespace
// All small arguments.
static void sweep() {
  for (int a = -130; a <= 130; ++a) for (int b = -130; b <= 130; ++b) { int p = a < 0 ? -a : a, q = b < 0 ? -b : b; while (q) { int t = p % q; p = q; q = t; } int g = cuhksz::gcd(a, b); VF_CHECK("C17:gcd", (g < 0 ? -g : g) == p && (a < 0 || b < 0 || g == p), "gcd(" << a << ", " << b << ") is " << g); long long h = cuhksz::gcd((short)a, (long long)b); VF_CHECK("C17:gcd", (h < 0 ? -h : h) == p, "gcd(short " << a << ", long long " << b << ") is " << h); if (p) { int w = a / p * b, l = cuhksz::lcm(a, b); VF_CHECK("C17:lcm", (l < 0 ? -l : l) == (w < 0 ? -w : w) && (a < 0 || b < 0 || l == w), "lcm(" << a << ", " << b << ") is " << l); } }
  for (int b = -70; b <= 70; ++b) for (int e = 0; e < 66; ++e) { W r; if (!power(b, e, r)) continue; int64_t g = cuhksz::binaryPow(b, e), h = cuhksz::genericBinaryPow((int64_t)b, e); VF_CHECK("C17:binaryPow", g == r && h == r, "power (" << b << ", " << e << ") is " << g << " and " << h << ", expected " << str(r)); }
  for (int n = 0; n <= 66; ++n) { W f = 1, pr = 1; for (int i = 2; i <= n; ++i) f = i > 30 ? f : f * i; if (n <= 20) { VF_CHECK("C17:factorial", (W)cuhksz::factorial((int64_t)n) == f, "factorial(" << n << ") as int64"); } if (n <= 12) VF_CHECK("C17:factorial", (W)cuhksz::factorial(n) == f, "factorial(" << n << ") as int");
    std::vector<W> row(1, 1); for (int r = 1; r <= n; ++r) row.push_back(row[r - 1] * (n - r + 1) / r);
    for (int r = 0; r <= n; ++r) { if (fits<int64_t>(row[r])) VF_CHECK("C17:binomial", (W)cuhksz::binomial((int64_t)n, (int64_t)r) == row[r], "binomial(" << n << ", " << r << ") as int64"); if (fits<int>(row[r])) VF_CHECK("C17:binomial", (W)cuhksz::binomial(n, r) == row[r], "binomial(" << n << ", " << r << ") as int"); if (r) pr = fits<int64_t>(pr) ? pr * (n - r + 1) : pr; if (fits<int64_t>(pr)) VF_CHECK("C17:permutation", (W)cuhksz::permutation((int64_t)n, (int64_t)r) == pr, "permutation(" << n << ", " << r << ") as int64"); if (fits<int>(pr)) VF_CHECK("C17:permutation", (W)cuhksz::permutation(n, r) == pr, "permutation(" << n << ", " << r << ") as int"); } }
  vf::note("swept argument ranges", 3);
}
VF_HARNESS2(C17, true, sweep) {
  switch (s.below(14)) {
    case 0: gcdlcm<int, int>(s); break; case 1: gcdlcm<long long, long long>(s); break; case 2: gcdlcm<short, short>(s); break; case 3: if (s.chance(1, 2)) gcdlcm<int, long long>(s); else gcdlcm<long long, int>(s); break;
    case 4: if (s.chance(1, 2)) gcdlcm<unsigned, unsigned>(s); else gcdlcm<uint64_t, uint64_t>(s); break; case 5: if (s.chance(1, 2)) gcdlcm<int, unsigned>(s); else gcdlcm<signed char, int>(s); break;
    case 6: case 7: pows(s); break; case 8: pows2(s); break;
    case 9: counting<int>(s); break; case 10: counting<int64_t>(s); break; case 11: if (s.chance(1, 2)) counting<uint64_t>(s); else counting<short>(s); break; case 12: bigbinom(s); break; default: rejects(s);
  }
}
