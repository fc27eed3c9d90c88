// Sequence containers behave as the abstract sequence under any history.
#include <algorithm>
#include <list>
#include <vector>
#include "containers/List.h"
#include "containers/Vector.h"
#include "elems.h"
namespace {
using cuhksz::List; using cuhksz::Vector;

template <class C, class M> void same_seq(const char* key, C& c, const M& m, const std::string& trace) {
  const C& cc = c;
  VF_EQ(key, c.size(), (int)m.size(), trace);
  VF_EQ(key, cc.isEmpty(), m.empty(), trace);
  size_t i = 0; auto mi = m.begin();
  for (auto it = c.begin(); it != c.end(); ++it, ++mi, ++i) {
    VF_CHECK(key, mi != m.end(), "iteration yields more than the " << m.size() << " elements; " << trace);
    VF_CHECK(key, same(*it, *mi), "element " << i << " is " << *it << ", expected " << *mi << "; " << trace);
  }
  VF_CHECK(key, mi == m.end(), "iteration yields only " << i << " of " << m.size() << " elements; " << trace);
  mi = m.begin(); i = 0;
  for (auto it = cc.begin(); it != cc.end(); ++it, ++mi, ++i) { VF_CHECK(key, mi != m.end(), "const iteration too long; " << trace); VF_CHECK(key, same(*it, *mi), "const element " << i << " is " << *it << ", expected " << *mi << "; " << trace); }
  VF_CHECK(key, mi == m.end(), "const iteration too short; " << trace);
  if (!m.empty()) {
    VF_CHECK(key, same(c.first(), m.front()) && same(cc.first(), m.front()), "first() is " << c.first() << ", expected " << m.front() << "; " << trace);
    VF_CHECK(key, same(c.last(), m.back()) && same(cc.last(), m.back()), "last() is " << c.last() << ", expected " << m.back() << "; " << trace);
  }
}
template <class C, class M> void rel(const char* key, C& a, const M& ma, const C& b, const M& mb, const std::string& trace) {
  VF_EQ(key, (a == b), (ma == mb), trace); VF_EQ(key, (a != b), (ma != mb), trace);
  VF_EQ(key, (a < b), (ma < mb), trace); VF_EQ(key, (a <= b), (ma <= mb), trace);
  VF_EQ(key, (a > b), (ma > mb), trace); VF_EQ(key, (a >= b), (ma >= mb), trace);
  vf::note("relational comparisons", 6);
}

template <class T> void vec(vf::Src& s) {
  int spread = s.chance(1, 2) ? (int)s.uni(1, 4) : 0;
  const int K = 3; const char* key = "C01:vector";
  std::vector<Vector<T>> c; std::vector<std::vector<T>> m(K); std::string tr = "Vector history:";
  c.reserve(8);
  for (int k = 0; k < K; ++k) {
    switch (s.below(4)) {
      case 0: c.emplace_back(); break;
      case 1: { int n = s.size(40); T v = Mk<T>::go(s, spread); c.emplace_back(n, v); m[k].assign(n, v); break; }
      case 2: { int n = s.size(40); std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(Mk<T>::go(s, spread)); c.emplace_back(v); m[k] = v; break; }
      default: { T a = Mk<T>::go(s, spread), b = Mk<T>::go(s, spread), d = Mk<T>::go(s, spread); Vector<T> x{a, b, d}; c.push_back(x); m[k] = {a, b, d}; }
    }
    same_seq(key, c[k], m[k], "after construction");
  }
  if (s.chance(1, 4)) { int n = s.size(20); Vector<T> x(n); VF_EQ(key, x.size(), n, "default-valued construction"); for (int i = 0; i < n; ++i) VF_CHECK(key, same(x[i], T()), "Vector(n) element " << i << " is " << x[i]); }
  int ops = s.chance(1, 2) ? s.size(60) : (int)s.uni(20, s.chance(1, 16) ? 600 : 120); bool big = s.chance(1, 12);
  if (s.below(80) == 79) { int n = (int)s.uni(1000, s.chance(1, 3) ? 70000 : 9000); T v = Mk<T>::go(s, spread), w = Mk<T>::go(s, spread); if (ops > 40) ops = 40; if (s.chance(1, 3)) { c[1] = Vector<T>(n, v); m[1].assign(n, v); } for (int i = 0; i < n; ++i) { const T& e = i % 7 == 3 || i % 11 == 5 ? v : w; c[0].push(e); m[0].push_back(e); } tr += " fill*" + vf::show(n); same_seq(key, c[0], m[0], tr); same_seq(key, c[1], m[1], tr); vf::note("bulk fills"); }
  if (big) { int n = (int)s.range(50, 5000); for (int i = 0; i < n; ++i) { T v = Mk<T>::go(s, 4); c[0].push(v); m[0].push_back(v); } tr += " push*" + vf::show(n); same_seq(key, c[0], m[0], tr); }
  for (int o = 0; o < ops; ++o) {
    int k = (int)s.below(K), j = (int)s.below(K); Vector<T>& x = c[k]; const Vector<T>& cx = x; std::vector<T>& y = m[k];
    int n = (int)y.size(); uint64_t op = s.below(22); std::string d;
    auto val = [&]() -> T { return Mk<T>::go(s, spread); };
    switch (op) {
      case 0: case 1: case 2: { T v = val(); x.push(v); y.push_back(v); d = "push"; break; }
      case 3: if (n) { T g = x.pop(); T w = y.back(); y.pop_back(); VF_CHECK(key, same(g, w), "pop() returned " << g << ", expected " << w << "; " << tr); } d = "pop"; break;
      case 4: case 5: { int i = (int)s.range(0, n); T v = val(); x.insert(i, v); y.insert(y.begin() + i, v); d = "insert@" + vf::show(i); break; }
      case 6: if (n) { int i = (int)s.range(0, n - 1); x.erase(i); y.erase(y.begin() + i); d = "erase@" + vf::show(i); } break;
      case 7: if (n) { int i = (int)s.range(0, n - 1); T v = val(); x.set(i, v); y[i] = v; d = "set@" + vf::show(i); } break;
      case 8: if (n) { int i = (int)s.range(0, n - 1); T v = val(); x[i] = v; y[i] = v; d = "[]=@" + vf::show(i); } break;
      case 9: if (n) { int i = (int)s.range(0, n - 1); T v = val(); x.get(i) = v; y[i] = v; d = "get()=@" + vf::show(i); } break;
      case 10: if (n) { T v = val(); x.first() = v; y.front() = v; d = "first()="; } break;
      case 11: if (n) { T v = val(); x.last() = v; y.back() = v; d = "last()="; } break;
      case 12: if (s.chance(1, 6)) { x.clear(); y.clear(); d = "clear"; } break;
      case 13: x = c[j]; y = m[j]; d = "assign<-" + vf::show(j); break;
      case 14: { Vector<T> t(x); x.push(val()); y.push_back(x.last()); std::vector<T> old(y.begin(), y.end() - 1); same_seq(key, t, old, tr + " copy independent of original"); d = "copy"; break; }
      case 15: if (n) { int i = (int)s.range(0, n - 1); x.push(x[i]); T v = y[i]; y.push_back(v); d = "push-own-element"; } break;
      case 16: if (n) { int i = (int)s.range(0, n - 1), p = (int)s.range(0, n); x.insert(p, x[i]); T v = y[i]; y.insert(y.begin() + p, v); d = "insert-own-element@" + vf::show(p); } break;
      case 17: if (n) { int i = (int)s.range(0, n - 1), p = (int)s.range(0, n - 1); x.set(p, x[i]); y[p] = T(y[i]); d = "set-own-element"; } break;
      case 18: rel(key, x, y, c[j], m[j], tr); d = "compare"; if (n && s.chance(1, 2)) { Vector<T> t(x); std::vector<T> u(y); int i = (int)s.range(0, n - 1); switch (s.below(4)) { case 0: t.pop(); u.pop_back(); break; case 1: t.erase(i); u.erase(u.begin() + i); break; case 2: break; default: { T v = val(); t.set(i, v); u[i] = v; } } rel(key, x, y, t, u, tr + " near copy"); rel(key, t, u, x, y, tr + " near copy"); } break;
      case 19: { std::vector<T> a = x.toStlVector(); std::vector<T> b = x; VF_CHECK(key, a.size() == y.size() && std::equal(a.begin(), a.end(), y.begin(), [](const T& p, const T& q) { return same(p, q); }), "toStlVector differs; " << tr); VF_CHECK(key, b.size() == y.size() && std::equal(b.begin(), b.end(), y.begin(), [](const T& p, const T& q) { return same(p, q); }), "conversion differs; " << tr); Vector<T> r(a); same_seq(key, r, y, tr + " rebuilt from stl"); d = "stl"; break; }
      case 20: std::sort(x.begin(), x.end(), [](const T& a, const T& b) { return a < b; }); std::sort(y.begin(), y.end(), [](const T& a, const T& b) { return a < b; }); d = "sort-through-iterators";
               for (int i = 0; i < n; ++i) if (!same(x[i], y[i])) { VF_CHECK(key, x[i] == y[i], "sorted element " << i << "; " << tr); y[i] = x[i]; } break;
      default: if (n) { int i = (int)s.range(0, n - 1); VF_CHECK(key, same(x.get(i), y[i]) && same(cx.get(i), y[i]) && same(x[i], y[i]) && same(cx[i], y[i]), "element " << i << " reads " << x[i] << ", expected " << y[i] << "; " << tr); } d = "read";
    }
    vf::note("operations"); vf::sig(op * 1000003 + n);
    if (tr.size() < 600) tr += " " + vf::show(k) + ":" + d;
    if (y.size() < 64 || o % 16 == 0) same_seq(key, x, y, tr);
  }
  for (int k = 0; k < K; ++k) { same_seq(key, c[k], m[k], tr); for (int i = 0; i < (int)m[k].size(); ++i) VF_CHECK(key, same(c[k][i], m[k][i]), "index " << i << "; " << tr); }
  if (ops > 2) vf::nontrivial();
  vf::sample([&] { return tr; });
}

// sorting and merging keep equal elements in their order, as the standard list does
template <class L, class T> void resync(L&, std::list<T>&, const std::string&) {}
template <class L> void resync(L& x, std::list<Tok>& y, const std::string& tr) {
  std::vector<std::pair<int, int>> a, b; for (auto& t : x) a.push_back({t.ok().v, t.tag}); for (auto& t : y) b.push_back({t.v, t.tag});
  VF_CHECK("C01:list", a == b, "sort or merge lost or misplaced elements; " << tr);
}

template <class T> void lst(vf::Src& s) {
  int spread = s.chance(1, 2) ? (int)s.uni(1, 4) : 0;
  const int K = 3; const char* key = "C01:list";
  std::vector<List<T>> c; c.reserve(8); std::vector<std::list<T>> m(K); std::string tr = "List history:";
  for (int k = 0; k < K; ++k) {
    switch (s.below(4)) {
      case 0: c.emplace_back(); break;
      case 1: { int n = s.size(40); T v = Mk<T>::go(s, spread); c.emplace_back(n, v); m[k].assign(n, v); break; }
      case 2: { int n = s.size(40); std::list<T> v; for (int i = 0; i < n; ++i) v.push_back(Mk<T>::go(s, spread)); c.emplace_back(v); m[k] = v; break; }
      default: { T a = Mk<T>::go(s, spread), b = Mk<T>::go(s, spread), d = Mk<T>::go(s, spread); List<T> x{a, b, d}; c.push_back(x); m[k] = {a, b, d}; }
    }
    same_seq(key, c[k], m[k], "after construction");
  }
  if (s.chance(1, 4)) { int n = s.size(20); List<T> x(n); VF_EQ(key, x.size(), n, "default-valued construction"); for (int i = 0; i < n; ++i) VF_CHECK(key, same(x[i], T()), "List(n) element " << i << " is " << x[i]); }
  int ops = s.chance(1, 2) ? s.size(60) : (int)s.uni(20, s.chance(1, 16) ? 600 : 120);
  if (s.below(80) == 79) { int n = (int)s.uni(1000, s.chance(1, 3) ? 70000 : 9000); T v = Mk<T>::go(s, spread), w = Mk<T>::go(s, spread); if (ops > 40) ops = 40; if (s.chance(1, 3)) { c[1] = List<T>(n, v); m[1].assign(n, v); } for (int i = 0; i < n; ++i) { const T& e = i % 7 == 3 || i % 11 == 5 ? v : w; c[0].push(e); m[0].push_back(e); } tr += " fill*" + vf::show(n); same_seq(key, c[0], m[0], tr); same_seq(key, c[1], m[1], tr); vf::note("bulk fills"); }
  if (s.chance(1, 12)) { int n = (int)s.range(50, 2000); for (int i = 0; i < n; ++i) { T v = Mk<T>::go(s, 4); c[0].push(v); m[0].push_back(v); } tr += " push*" + vf::show(n); same_seq(key, c[0], m[0], tr); }
  for (int o = 0; o < ops; ++o) {
    int k = (int)s.below(K), j = (int)s.below(K); List<T>& x = c[k]; const List<T>& cx = x; std::list<T>& y = m[k];
    int n = (int)y.size(); uint64_t op = s.below(24); std::string d;
    auto val = [&]() -> T { return Mk<T>::go(s, spread); }; auto at = [&](int i) { return std::next(y.begin(), i); };
    switch (op) {
      case 0: case 1: { T v = val(); x.push(v); y.push_back(v); d = "push"; break; }
      case 2: case 3: { T v = val(); x.push_front(v); y.push_front(v); d = "push_front"; break; }
      case 4: if (n) { T g = x.pop(); T w = y.back(); y.pop_back(); VF_CHECK(key, same(g, w), "pop() returned " << g << ", expected " << w << "; " << tr); } d = "pop"; break;
      case 5: if (n) { T g = x.pop_front(); T w = y.front(); y.pop_front(); VF_CHECK(key, same(g, w), "pop_front() returned " << g << ", expected " << w << "; " << tr); } d = "pop_front"; break;
      case 6: case 7: { int i = (int)s.range(0, n); T v = val(); x.insert(i, v); y.insert(at(i), v); d = "insert@" + vf::show(i); break; }
      case 8: if (n) { int i = (int)s.range(0, n - 1); x.erase(i); y.erase(at(i)); d = "erase@" + vf::show(i); } break;
      case 9: if (n) { int i = (int)s.range(0, n - 1); T v = val(); x[i] = v; *at(i) = v; d = "[]=@" + vf::show(i); } break;
      case 10: if (n) { T v = val(); x.first() = v; y.front() = v; d = "first()="; } break;
      case 11: if (n) { T v = val(); x.last() = v; y.back() = v; d = "last()="; } break;
      case 12: if (s.chance(1, 6)) { x.clear(); y.clear(); d = "clear"; } break;
      case 13: x = c[j]; y = m[j]; d = "assign<-" + vf::show(j); break;
      case 14: { List<T> t(x); x.push_front(val()); std::list<T> old = y; y.push_front(x.first()); same_seq(key, t, old, tr + " copy independent of original"); d = "copy"; break; }
      case 15: if (n) { int i = (int)s.range(0, n - 1); x.push(x[i]); y.push_back(T(*at(i))); d = "push-own-element"; } break;
      case 16: if (n) { int i = (int)s.range(0, n - 1), p = (int)s.range(0, n); T v = *at(i); x.insert(p, x[i]); y.insert(at(p), v); d = "insert-own-element@" + vf::show(p); } break;
      case 17: { x.sort(); y.sort(); resync(x, y, tr); d = "sort"; break; }
      case 18: { x.reverse(); y.reverse(); d = "reverse"; break; }
      case 19: if (j != k) { x.sort(); y.sort(); c[j].sort(); m[j].sort(); resync(x, y, tr); resync(c[j], m[j], tr); x.merge(c[j]); y.merge(m[j]); resync(x, y, tr); same_seq(key, c[j], m[j], tr + " merged-from list"); d = "merge"; } break;
      case 20: rel(key, x, y, c[j], m[j], tr); d = "compare"; if (n && s.chance(1, 2)) { List<T> t(x); std::list<T> u(y); int i = (int)s.range(0, n - 1); switch (s.below(4)) { case 0: t.pop(); u.pop_back(); break; case 1: t.erase(i); u.erase(std::next(u.begin(), i)); break; case 2: break; default: { T v = val(); t[i] = v; *std::next(u.begin(), i) = v; } } rel(key, x, y, t, u, tr + " near copy"); rel(key, t, u, x, y, tr + " near copy"); } break;
      case 21: { std::list<T> a = x.toStlList(); std::list<T> b = x; auto eq = [](const T& p, const T& q) { return same(p, q); }; VF_CHECK(key, a.size() == y.size() && std::equal(a.begin(), a.end(), y.begin(), eq), "toStlList differs; " << tr); VF_CHECK(key, b.size() == y.size() && std::equal(b.begin(), b.end(), y.begin(), eq), "conversion differs; " << tr); List<T> r(a); same_seq(key, r, y, tr + " rebuilt from stl"); d = "stl"; break; }
      case 22: if (n) { auto it = x.begin(); auto mi = y.begin(); int i = (int)s.range(0, n - 1); std::advance(it, i); std::advance(mi, i); T v = val(); *it = v; *mi = v; d = "write-through-iterator"; } break;
      default: if (n) { int i = (int)s.range(0, n - 1); VF_CHECK(key, same(x[i], *at(i)) && same(cx[i], *at(i)), "element " << i << " reads " << x[i] << ", expected " << *at(i) << "; " << tr); } d = "read";
    }
    vf::note("operations"); vf::sig(op * 1000003 + n);
    if (tr.size() < 600) tr += " " + vf::show(k) + ":" + d;
    if (y.size() < 64 || o % 16 == 0) same_seq(key, x, y, tr);
  }
  for (int k = 0; k < K; ++k) same_seq(key, c[k], m[k], tr);
  if (ops > 2) vf::nontrivial();
  vf::sample([&] { return tr; });
}
// Sizes around and beyond the powers of two that index and size types suggest.
void large() {
  const char* key = "C01:large";
  for (int n : {255, 256, 257, 1000, 4095, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 140000, 270000}) {
    { Vector<int> x(n, 7), z(n); VF_EQ(key, x.size(), n, "Vector(n, v)"); VF_EQ(key, z.size(), n, "Vector(n)"); for (int i = 0; i < n; ++i) { VF_CHECK(key, x[i] == 7 && z[i] == 0, "element " << i << " of Vector(" << n << ", 7) is " << x[i] << ", of Vector(" << n << ") is " << z[i]); x[i] = i; }
      std::vector<int> y(n); for (int i = 0; i < n; ++i) y[i] = i;
      for (int at : {0, 1, n / 2, n - 2, n - 1, n}) { int v = x[std::min(at, n - 1)]; x.insert(at, x[std::min(at, n - 1)]); y.insert(y.begin() + at, v); }
      for (int at : {0, n / 3, n - 1, n}) { x.erase(at); y.erase(y.begin() + at); x.set(at / 2, -at); y[at / 2] = -at; }
      same_seq(key, x, y, "large vector");
      Vector<int> c(x), w(y); VF_CHECK(key, c == x && w == x && !(c < x) && c <= x, "copies of a Vector of " << n << " elements differ"); c.set(n - 1, c[n - 1] + 1); VF_CHECK(key, c != x && x < c && c > x && !(c == x), "a Vector differing in element " << n - 1 << " compares equal"); c.set(n - 1, y[n - 1]); c.pop(); VF_CHECK(key, c < x && c != x && !(x <= c), "a Vector shorter by one compares wrongly at size " << n); same_seq(key, x, y, "large vector after copies"); }
    vf::progress();
    { List<int> x(n, 7), z(n); VF_EQ(key, x.size(), n, "List(n, v)"); VF_EQ(key, z.size(), n, "List(n)"); int i = 0; for (int& e : x) { VF_CHECK(key, e == 7, "element " << i << " of List(" << n << ", 7) is " << e); e = (int)((long long)i * 7919 % 10007); ++i; } for (int e : z) VF_CHECK(key, e == 0, "element of List(" << n << ") is " << e);
      std::list<int> y(x.begin(), x.end());
      for (int at : {0, n / 2, n - 1, n}) { x.insert(at, at); y.insert(std::next(y.begin(), at), at); VF_EQ(key, x[std::min(at, n - 1)], *std::next(y.begin(), std::min(at, n - 1)), "large list"); }
      for (int at : {0, n / 3, n - 1}) { x.erase(at); y.erase(std::next(y.begin(), at)); }
      same_seq(key, x, y, "large list"); List<int> c(x); std::list<int> u(y); x.sort(); y.sort(); same_seq(key, x, y, "large list sorted"); c.reverse(); u.reverse(); same_seq(key, c, u, "large list reversed"); c.sort(); u.sort(); x.merge(c); y.merge(u); same_seq(key, x, y, "large lists merged"); VF_EQ(key, c.size(), 0, "the merged-from list keeps elements"); }
    vf::progress(); vf::note("large sequences");
  }
}
}  // namespace

VF_HARNESS2(C01, true, large) {
  long before = Tok::live();
  switch (s.below(6)) {
    case 0: vec<int>(s); break; case 1: vec<std::string>(s); break; case 2: vec<Tok>(s); break;
    case 3: lst<int>(s); break; case 4: lst<std::string>(s); break; default: lst<Tok>(s);
  }
  VF_EQ("C01:element-lifetime", Tok::live(), before, "element constructions and destructions do not balance");
}
