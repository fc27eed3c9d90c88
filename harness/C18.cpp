// Sum, mean, variance and standard deviation against extended-precision references, for arrays and containers.
#include "containers/List.h"
#include "containers/MultiSet.h"
#include "containers/Vector.h"
#include "math_utils/math_functions.h"
#include "vf.h"
#include <array>
#include <deque>
#include <limits>
#include <list>
#include <memory>
namespace {
typedef long double L;
const L EPS = 2.220446049250313e-16L;
template <class T> std::vector<T> make(vf::Src& s, std::string& kind) {
  int n = s.chance(1, 12) ? 1 + s.size(2000) : 1 + s.size(60); if (s.below(300) == 299) n = (int)s.uni(2000, s.chance(1, 3) ? 70000 : 9000); std::vector<T> v; v.reserve(n); int k = (int)s.below(7); bool fl = std::is_floating_point<T>::value;
  L hi = (L)std::numeric_limits<T>::max(); double off = fl ? s.real(-1e6, 1e6) : (double)s.range((long long)std::max<L>(-hi / 2, -1000000000), (long long)std::min<L>(hi / 2, 1000000000)); double sc = std::pow(10.0, (double)s.range(-3, 6));
  for (int i = 0; i < n; ++i) { double x; switch (k) { case 0: x = (double)s.range(-20, 20); break; case 1: x = off; break; case 2: x = off + (double)s.range(-3, 3); break; case 3: x = fl ? sc * (s.unit() - 0.5) : (double)s.range(-1000000, 1000000); break; case 4: x = (i % 2 ? 1 : -1) * (fl ? sc : (double)std::min<L>(hi, 2147483647)); break; case 5: x = (double)s.range((long long)std::max<L>(-hi, -2147483647), (long long)std::min<L>(hi, 2147483647)); break; default: x = i * (double)(1 + k) - n; }
    if (!std::is_signed<T>::value && x < 0) x = -x; if ((L)x > hi) x = (double)(hi / 2); if ((L)x < -hi) x = -(double)(hi / 2); v.push_back((T)x); }
  kind = std::to_string(n) + " values of kind " + std::to_string(k); return v;
}
template <class T> struct Ref {
  L sum = 0, abs = 0, mean = 0, ss = 0, big = 0, lim = 0; size_t n; bool sumfits = true;
  explicit Ref(const std::vector<T>& v) : n(v.size()) {
    for (T x : v) { sum += x; abs += fabsl((L)x); big = std::max(big, fabsl((L)x)); if (!std::is_floating_point<T>::value && (sum > (L)std::numeric_limits<T>::max() || sum < (L)std::numeric_limits<T>::lowest())) sumfits = false; }
    mean = n ? sum / n : 0; for (T x : v) ss += (x - mean) * (x - mean);
    if (std::is_floating_point<T>::value && abs > (L)std::numeric_limits<T>::max() / 4) sumfits = false;
  }
  L te() const { return std::is_same<T, float>::value ? 1.2e-7L : EPS; }
  L meanTol() const { return (EPS + (std::is_same<T, float>::value ? 1.2e-7L : 0)) * 4 * (n + 4) * (abs / (n ? n : 1)) + 1e-300L; }
  L ssTol() const { L dm = meanTol(); return 8 * EPS * (n + 8) * ss + n * dm * dm * 4 + 4 * dm * sqrtl(ss * n) + 1e-290L; }
};
#define NEAR(key, got, want, tol, what) do { L g_ = (L)(got), w_ = (want), t_ = (tol); VF_CHECK(key, std::isfinite((double)g_) && fabsl(g_ - w_) <= t_, what << " is " << (double)g_ << ", expected " << (double)w_ << " (tolerance " << (double)t_ << "): " << text(v)); } while (0)
template <class T> std::string text(const std::vector<T>& v) { return vf::show_seq(v, 12) + " (" + std::to_string(v.size()) + ")"; }
template <class T> typename std::enable_if<std::is_same<T, int>::value || std::is_same<T, double>::value>::type arr(const std::vector<T>& v, const Ref<T>& r, const T* p) {
  int n = (int)v.size(); NEAR("C18:variance", cuhksz::variance(p, n), r.ss / n, r.ssTol() / n, "variance(array)"); L sd = sqrtl(r.ss / n), st = sqrtl(r.ssTol() / n) + 4 * EPS * sd; { L g = cuhksz::stddev(p, n); VF_CHECK("C18:stddev", fabsl(g * g - r.ss / n) <= r.ssTol() / n + 8 * EPS * r.ss / n && g >= 0, "stddev(array) is " << (double)g << ", expected " << (double)sd << ": " << text(v)); (void)st; }
  if (n > 1) { NEAR("C18:sample_variance", cuhksz::sample_variance(p, n), r.ss / (n - 1), r.ssTol() / (n - 1), "sample_variance(array)"); L g = cuhksz::sample_stddev(p, n); VF_CHECK("C18:sample_stddev", fabsl(g * g - r.ss / (n - 1)) <= r.ssTol() / (n - 1) + 8 * EPS * r.ss / (n - 1) && g >= 0, "sample_stddev(array) is " << (double)g << ": " << text(v)); }
}
template <class T> typename std::enable_if<!(std::is_same<T, int>::value || std::is_same<T, double>::value)>::type arr(const std::vector<T>&, const Ref<T>&, const T*) {}
template <class T, class C> void cont(const std::vector<T>& v, const Ref<T>& r, const C& c, const char* cn) {
  int n = (int)v.size(); if (r.sumfits) { T g = cuhksz::sum(c); if (std::is_floating_point<T>::value) NEAR("C18:sum", g, r.sum, r.te() * 4 * (n + 4) * r.abs + 1e-300L, "sum(" << cn << ")"); else VF_CHECK("C18:sum", (L)g == r.sum, "sum(" << cn << ") is " << (double)g << ", expected " << (double)r.sum << ": " << text(v)); }
  NEAR("C18:mean", cuhksz::mean(c), r.mean, r.meanTol(), "mean(" << cn << ")"); NEAR("C18:variance", cuhksz::variance(c), r.ss / n, r.ssTol() / n, "variance(" << cn << ")");
  { L g = cuhksz::stddev(c); VF_CHECK("C18:stddev", fabsl(g * g - r.ss / n) <= r.ssTol() / n + 8 * EPS * r.ss / n && g >= 0, "stddev(" << cn << ") is " << (double)g << ": " << text(v)); }
  if (n > 1) { NEAR("C18:sample_variance", cuhksz::sample_variance(c), r.ss / (n - 1), r.ssTol() / (n - 1), "sample_variance(" << cn << ")"); L g = cuhksz::sample_stddev(c); VF_CHECK("C18:sample_stddev", fabsl(g * g - r.ss / (n - 1)) <= r.ssTol() / (n - 1) + 8 * EPS * r.ss / (n - 1) && g >= 0, "sample_stddev(" << cn << ") is " << (double)g << ": " << text(v)); }
  // mapping function: called once per element, in order, its results summed in its own type
  std::vector<T> seen; L w = 0; for (T x : v) w += (L)(double)x / 2; double g = cuhksz::sum(c, [&](T x) { seen.push_back(x); return (double)x / 2.0; }); VF_CHECK("C18:map", seen.size() == v.size(), "mapping function called " << seen.size() << " times for " << n << " elements in " << cn); NEAR("C18:sum", g, w, EPS * 4 * (n + 4) * r.abs + 1e-300L, "sum(" << cn << ", fn)");
  vf::note("containers compared");
}
template <class T> void one(vf::Src& s) {
  std::string kind; std::vector<T> v = make<T>(s, kind); Ref<T> r(v); int n = (int)v.size(); for (size_t i = 0; i < v.size() && i < 50; ++i) vf::sig((uint64_t)(long long)((double)v[i] * 1024)); if (n > 1) vf::nontrivial(); vf::sample([&] { return kind + ": " + text(v); });
  std::unique_ptr<T[]> raw(new T[n]); for (int i = 0; i < n; ++i) raw[i] = v[i]; const T* p = raw.get();
  if (r.sumfits) { T g = cuhksz::sum(p, n); if (std::is_floating_point<T>::value) NEAR("C18:sum", g, r.sum, r.te() * 4 * (n + 4) * r.abs + 1e-300L, "sum(array)"); else VF_CHECK("C18:sum", (L)g == r.sum, "sum(array) is " << (double)g << ", expected " << (double)r.sum << ": " << text(v)); }
  int k = (int)s.below(n + 1); std::vector<T> head(v.begin(), v.begin() + k); Ref<T> rh(head); if (rh.sumfits && k > 0) { T g = cuhksz::sum(p, k); VF_CHECK("C18:prefix", fabsl((L)g - rh.sum) <= (std::is_floating_point<T>::value ? r.te() * 4 * (n + 4) * rh.abs + 1e-300L : 0), "sum of the first " << k << " elements is " << (double)g << ", expected " << (double)rh.sum << ": " << text(v)); }
  if (k > 0) { L g = cuhksz::mean(p, k); VF_CHECK("C18:prefix", fabsl(g - rh.mean) <= rh.meanTol(), "mean of the first " << k << " elements is " << (double)g << ": " << text(v)); }
  NEAR("C18:mean", cuhksz::mean(p, n), r.mean, r.meanTol(), "mean(array)"); arr(v, r, p);
  int calls = 0; L w = 0; for (T x : v) w += (L)(double)x * 0.25; double g = cuhksz::sum(p, n, [&](T x) { VF_CHECK("C18:map", calls < n && x == v[calls], "mapping function called out of order"); ++calls; return (double)x * 0.25; }); VF_CHECK("C18:map", calls == n, "mapping function called " << calls << " times for " << n << " elements"); NEAR("C18:sum", g, w, EPS * 4 * (n + 4) * r.abs + 1e-300L, "sum(array, fn)");
  int neg = -(int)s.below(4) - (s.chance(1, 4) ? 1000000 : 0); VF_CHECK("C18:nonpositive", cuhksz::sum(p, neg) == T(0) && cuhksz::sum(p, neg, [](T x) { return (double)x; }) == 0.0, "sum with size " << neg << " is not 0"); if (neg < 0) VF_CHECK("C18:nonpositive", cuhksz::mean(p, neg) == 0.0, "mean with size " << neg << " is not 0");
  switch (s.below(5)) { case 0: cont(v, r, v, "std::vector"); break; case 1: { cuhksz::Vector<T> c; for (T x : v) c.push(x); cont(v, r, c, "Vector"); break; } case 2: { cuhksz::List<T> c; for (T x : v) c.push(x); cont(v, r, c, "List"); break; } case 3: { std::list<T> c(v.begin(), v.end()); cont(v, r, c, "std::list"); break; } default: { std::deque<T> c(v.begin(), v.end()); cont(v, r, c, "std::deque"); } }
  vf::note("arrays compared");
}
void negative(vf::Src& s) {
  int d[3] = {(int)s.range(-100, 100), 5, 7}; double e[3] = {s.real(-5, 5), 1, 2}; int n = -1 - (int)s.below(s.chance(1, 2) ? 3 : 100000); vf::sig((uint64_t)(unsigned)n * 7 + d[0]);
  VF_CHECK("C18:nonpositive", cuhksz::variance(d, n) == 0 && cuhksz::variance(e, n) == 0 && cuhksz::stddev(d, n) == 0 && cuhksz::stddev(e, n) == 0 && cuhksz::sample_variance(d, n) == 0 && cuhksz::sample_variance(e, n) == 0 && cuhksz::sample_stddev(d, n) == 0 && cuhksz::sample_stddev(e, n) == 0, "statistics with size " << n << " are not 0");
}
}  // namespace
VF_HARNESS2(C18, true, nullptr) { switch (s.below(14)) { case 0: case 1: case 2: one<int>(s); break; case 3: case 4: case 5: one<double>(s); break; case 6: one<float>(s); break; case 7: one<short>(s); break; case 8: one<long long>(s); break; case 9: one<unsigned>(s); break; case 10: one<unsigned char>(s); break; case 11: negative(s); break; default: one<double>(s); } }
