// Associative containers behave as the abstract map / set / multiset under any history.
#include <map>
#include <set>
#include "containers/Map.h"
#include "containers/MultiMap.h"
#include "containers/MultiSet.h"
#include "containers/Set.h"
#include "elems.h"
namespace {
using namespace cuhksz;
template <class A, class B> std::ostream& operator<<(std::ostream& o, const std::pair<A, B>& p) { return o << p.first << "=>" << p.second; }
template <class A, class B> bool same(const std::pair<A, B>& a, const std::pair<A, B>& b) { return ::same(a.first, b.first) && ::same(a.second, b.second); }
template <class T> bool same2(const T& a, const T& b) { return ::same(a, b); }
template <class A, class B> bool same2(const std::pair<A, B>& a, const std::pair<A, B>& b) { return same(a, b); }

template <class T> __attribute__((noinline)) std::string str1(const T& x) { std::ostringstream o; o << x; return o.str(); }
template <class C, class M> void same_assoc(const char* key, C& c, const M& m, const std::string& tr) {
  const C& cc = c;
  VF_EQ(key, c.size(), (int)m.size(), tr); VF_EQ(key, c.isEmpty(), m.empty(), tr);
  auto mi = m.begin(); size_t i = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++mi, ++i) { VF_CHECK(key, mi != m.end(), "iteration too long; " << tr); VF_CHECK(key, same2(*it, *mi), "entry " << i << " is " << str1(*it) << ", expected " << str1(*mi) << "; " << tr); }
  VF_CHECK(key, mi == m.end(), "iteration stops after " << i << " of " << m.size() << " entries; " << tr);
  mi = m.begin();
  for (auto it = cc.begin(); it != cc.end(); ++it, ++mi) { VF_CHECK(key, mi != m.end(), "const iteration too long; " << tr); VF_CHECK(key, same2(*it, *mi), "const iteration differs; " << tr); }
  VF_CHECK(key, mi == m.end(), "const iteration too short; " << tr);
}
template <class C, class M> void rel(const char* key, C& a, const M& ma, const C& b, const M& mb, const std::string& tr) {
  VF_EQ(key, (a == b), (ma == mb), tr); VF_EQ(key, (a != b), (ma != mb), tr);
  VF_EQ(key, (a < b), (ma < mb), tr); VF_EQ(key, (a <= b), (ma <= mb), tr);
  VF_EQ(key, (a > b), (ma > mb), tr); VF_EQ(key, (a >= b), (ma >= mb), tr);
  vf::note("relational comparisons", 6);
}
template <class T> struct Nth { static T at(int i) { return T(i); } };
template <> struct Nth<std::string> { static std::string at(int i) { return "k" + std::to_string(i); } };
int nops(vf::Src& s) { return s.chance(1, 2) ? s.size(60) : (int)s.uni(20, s.chance(1, 16) ? 600 : 120); }

template <class Kt, class V> void map_(vf::Src& s) {
  const char* key = "C02:map"; const int K = 3; int spread = s.chance(2, 3) ? (int)s.uni(1, 8) : 0;
  std::vector<Map<Kt, V>> c; c.reserve(8); std::vector<std::map<Kt, V>> m(K); std::string tr = "Map history:";
  for (int k = 0; k < K; ++k) {
    switch (s.below(3)) {
      case 0: c.emplace_back(); break;
      case 1: { int n = s.size(30); std::map<Kt, V> v; for (int i = 0; i < n; ++i) { Kt kk = Mk<Kt>::go(s, spread); v[kk] = Mk<V>::go(s, spread); } c.emplace_back(v); m[k] = v; break; }
      default: { std::pair<const Kt, V> a(Mk<Kt>::go(s, spread), Mk<V>::go(s, spread)), b(Mk<Kt>::go(s, spread), Mk<V>::go(s, spread)); Map<Kt, V> x{a, b}; c.push_back(x); m[k] = {a, b}; }
    }
    same_assoc(key, c[k], m[k], "after construction");
  }
  if (s.chance(1, 12)) { int n = (int)s.range(20, 1500); for (int i = 0; i < n; ++i) { Kt kk = Mk<Kt>::go(s, 0); V v = Mk<V>::go(s, 3); c[0].set(kk, v); m[0].erase(kk); m[0].insert({kk, v}); } tr += " set*" + vf::show(n); same_assoc(key, c[0], m[0], tr); }
  int ops = nops(s);
  if (s.below(80) == 79) { if (ops > 40) ops = 40; int n = (int)s.uni(1000, s.chance(1, 3) ? 40000 : 6000); V v = Mk<V>::go(s, spread); for (int i = 0; i < n; ++i) { Kt q = Nth<Kt>::at((int)((long long)i * 7919 % n)); c[0].set(q, v); m[0][q] = v; } tr += " fill*" + vf::show(n); same_assoc(key, c[0], m[0], tr); vf::note("bulk fills"); }
  for (int o = 0; o < ops; ++o) {
    int k = (int)s.below(K), j = (int)s.below(K); Map<Kt, V>& x = c[k]; const Map<Kt, V>& cx = x; auto& y = m[k]; uint64_t op = s.below(16); std::string d;
    Kt kk = (!y.empty() && s.chance(1, 2)) ? std::next(y.begin(), s.below(y.size()))->first : Mk<Kt>::go(s, spread);
    switch (op) {
      case 0: case 1: { V v = Mk<V>::go(s, spread); x.set(kk, v); y[kk] = v; d = "set"; break; }
      case 2: if (!y.empty()) { size_t i = s.below(y.size()), q = s.below(y.size()); V v = std::next(y.begin(), q)->second; if (s.chance(1, 2)) { Kt own = std::next(y.begin(), i)->first; x.set(std::next(x.begin(), i)->first, std::next(x.begin(), q)->second); y[own] = v; d = "set-own-own"; } else { x.set(kk, std::next(x.begin(), q)->second); y[kk] = v; d = "set-own-value"; } } break;
      case 3: case 4: { V v = Mk<V>::go(s, spread); x[kk] = v; y[kk] = v; d = "[]="; break; }
      case 5: { VF_CHECK(key, ::same(x[kk], y[kk]), "operator[] reads " << x[kk] << ", expected " << y[kk] << "; " << tr); d = "[]read"; break; }
      case 6: if (y.count(kk)) { VF_CHECK(key, ::same(x.get(kk), y.at(kk)) && ::same(cx.get(kk), y.at(kk)), "get() reads " << x.get(kk) << ", expected " << y.at(kk) << "; " << tr); d = "get"; } break;
      case 7: if (y.count(kk)) { V v = Mk<V>::go(s, spread); x.get(kk) = v; y.at(kk) = v; d = "get()="; } break;
      case 8: case 9: if (s.chance(1, 2)) { x.erase(kk); y.erase(kk); d = "erase"; } else if (!y.empty()) { size_t i = s.below(y.size()); x.erase(std::next(x.begin(), i)->first); y.erase(std::next(y.begin(), i)); d = "erase-own-key"; } break;
      case 10: if (s.chance(1, 6)) { x.clear(); y.clear(); d = "clear"; } break;
      case 11: x = c[j]; y = m[j]; d = "assign"; break;
      case 12: rel(key, x, y, c[j], m[j], tr); d = "compare"; if (s.chance(1, 2)) { Map<Kt, V> t(x); auto u = y; if (s.chance(1, 2)) { V v = Mk<V>::go(s, spread); t.set(kk, v); u[kk] = v; } else { t.erase(kk); u.erase(kk); } rel(key, x, y, t, u, tr + " near copy"); rel(key, t, u, x, y, tr + " near copy"); } break;
      case 13: { std::map<Kt, V> a = x.toStlMap(), b = x; VF_CHECK(key, a.size() == y.size() && b.size() == y.size(), "stl conversion; " << tr); Map<Kt, V> r(a); same_assoc(key, r, y, tr + " rebuilt"); Map<Kt, V> q(b); same_assoc(key, q, y, tr + " rebuilt"); d = "stl"; break; }
      case 14: { Map<Kt, V> t(x); auto old = y; V v = Mk<V>::go(s, spread); x.set(kk, v); y[kk] = v; same_assoc(key, t, old, tr + " copy independent"); d = "copy"; break; }
      default: { VF_EQ(key, x.contains(kk), (y.count(kk) != 0), tr); if (y.count(kk)) { x.set(kk, x.get(kk)); } d = "contains"; }
    }
    vf::note("operations"); vf::sig(op * 1000003 + y.size());
    if (tr.size() < 600) tr += " " + vf::show(k) + ":" + d;
    if (y.size() < 64 || o % 16 == 0) same_assoc(key, x, y, tr);
    VF_EQ(key, x.contains(kk), (y.count(kk) != 0), tr);
  }
  for (int k = 0; k < K; ++k) same_assoc(key, c[k], m[k], tr);
  if (ops > 2) vf::nontrivial();
  vf::sample([&] { return tr; });
}

template <class V> void set_(vf::Src& s) {
  const char* key = "C02:set"; const int K = 3; int spread = s.chance(2, 3) ? (int)s.uni(1, 8) : 0;
  std::vector<Set<V>> c; c.reserve(8); std::vector<std::set<V>> m(K); std::string tr = "Set history:";
  for (int k = 0; k < K; ++k) {
    switch (s.below(3)) {
      case 0: c.emplace_back(); break;
      case 1: { int n = s.size(40); std::set<V> v; for (int i = 0; i < n; ++i) v.insert(Mk<V>::go(s, spread)); c.emplace_back(v); m[k] = v; break; }
      default: { V a = Mk<V>::go(s, spread), b = Mk<V>::go(s, spread), d = Mk<V>::go(s, spread); Set<V> x{a, b, d}; c.push_back(x); m[k] = {a, b, d}; }
    }
    same_assoc(key, c[k], m[k], "after construction");
  }
  if (s.chance(1, 12)) { int n = (int)s.range(20, 1500); for (int i = 0; i < n; ++i) { V v = Mk<V>::go(s, 0); c[0].insert(v); m[0].insert(v); } tr += " insert*" + vf::show(n); same_assoc(key, c[0], m[0], tr); }
  int ops = nops(s);
  if (s.below(80) == 79) { if (ops > 40) ops = 40; int n = (int)s.uni(1000, s.chance(1, 3) ? 40000 : 6000), few = s.chance(1, 3) ? (int)s.uni(1, n) : n; for (int i = 0; i < n; ++i) { V v = Nth<V>::at((int)((long long)i * 7919 % n) % few); c[0].insert(v); m[0].insert(v); } tr += " fill*" + vf::show(n); same_assoc(key, c[0], m[0], tr); vf::note("bulk fills"); }
  for (int o = 0; o < ops; ++o) {
    int k = (int)s.below(K), j = (int)s.below(K); Set<V>& x = c[k]; const Set<V>& cx = x; auto& y = m[k]; uint64_t op = s.below(12); std::string d;
    V v = (!y.empty() && s.chance(1, 2)) ? *std::next(y.begin(), s.below(y.size())) : Mk<V>::go(s, spread);
    switch (op) {
      case 0: case 1: case 2: x.insert(v); y.insert(v); d = "insert"; break;
      case 3: if (!y.empty()) { x.insert(*std::next(x.begin(), s.below(y.size()))); d = "insert-own"; } break;
      case 4: case 5: x.erase(v); y.erase(v); d = "erase"; break;
      case 6: if (!y.empty()) { size_t i = s.below(y.size()); x.erase(*std::next(x.begin(), i)); y.erase(std::next(y.begin(), i)); d = "erase-own"; } break;
      case 7: if (s.chance(1, 6)) { x.clear(); y.clear(); d = "clear"; } break;
      case 8: x = c[j]; y = m[j]; d = "assign"; break;
      case 9: rel(key, x, y, c[j], m[j], tr); d = "compare"; if (s.chance(1, 2)) { Set<V> t(x); auto u = y; if (s.chance(1, 2)) { t.insert(v); u.insert(v); } else if (u.count(v)) { t.erase(v); u.erase(v); } rel(key, x, y, t, u, tr + " near copy"); rel(key, t, u, x, y, tr + " near copy"); } break;
      case 10: { std::set<V> a = x.toStlSet(), b = x; Set<V> r(a), q(b); same_assoc(key, r, y, tr + " rebuilt"); same_assoc(key, q, y, tr + " rebuilt"); d = "stl"; break; }
      default: { Set<V> t(x); auto old = y; x.insert(v); y.insert(v); same_assoc(key, t, old, tr + " copy independent"); d = "copy"; }
    }
    vf::note("operations"); vf::sig(op * 1000003 + y.size());
    if (tr.size() < 600) tr += " " + vf::show(k) + ":" + d;
    if (y.size() < 64 || o % 16 == 0) same_assoc(key, x, y, tr);
    VF_EQ(key, cx.contains(v), (y.count(v) != 0), tr);
  }
  for (int k = 0; k < K; ++k) same_assoc(key, c[k], m[k], tr);
  if (ops > 2) vf::nontrivial();
  vf::sample([&] { return tr; });
}

template <class V> void mset_(vf::Src& s) {
  const char* key = "C02:multiset"; const int K = 3; int spread = s.chance(2, 3) ? (int)s.uni(1, 8) : 0;
  std::vector<MultiSet<V>> c; c.reserve(8); std::vector<std::multiset<V>> m(K); std::string tr = "MultiSet history:";
  for (int k = 0; k < K; ++k) {
    switch (s.below(3)) {
      case 0: c.emplace_back(); break;
      case 1: { int n = s.size(40); std::multiset<V> v; for (int i = 0; i < n; ++i) v.insert(Mk<V>::go(s, spread)); c.emplace_back(v); m[k] = v; break; }
      default: { V a = Mk<V>::go(s, spread), b = Mk<V>::go(s, spread); MultiSet<V> x{a, b, a}; c.push_back(x); m[k] = {a, b, a}; }
    }
    same_assoc(key, c[k], m[k], "after construction");
  }
  if (s.chance(1, 12)) { int n = (int)s.range(20, 1500); for (int i = 0; i < n; ++i) { V v = Mk<V>::go(s, 20); c[0].insert(v); m[0].insert(v); } tr += " insert*" + vf::show(n); same_assoc(key, c[0], m[0], tr); }
  int ops = nops(s);
  if (s.below(80) == 79) { if (ops > 40) ops = 40; int n = (int)s.uni(1000, s.chance(1, 3) ? 40000 : 6000), few = s.chance(1, 3) ? (int)s.uni(1, n) : n; for (int i = 0; i < n; ++i) { V v = Nth<V>::at((int)((long long)i * 7919 % n) % few); c[0].insert(v); m[0].insert(v); } tr += " fill*" + vf::show(n); same_assoc(key, c[0], m[0], tr); vf::note("bulk fills"); }
  for (int o = 0; o < ops; ++o) {
    int k = (int)s.below(K), j = (int)s.below(K); MultiSet<V>& x = c[k]; const MultiSet<V>& cx = x; auto& y = m[k]; uint64_t op = s.below(12); std::string d;
    V v = (!y.empty() && s.chance(1, 2)) ? *std::next(y.begin(), s.below(y.size())) : Mk<V>::go(s, spread);
    switch (op) {
      case 0: case 1: case 2: case 3: x.insert(v); y.insert(v); d = "insert"; break;
      case 4: if (!y.empty()) { size_t i = s.below(y.size()); V w = *std::next(y.begin(), i); x.insert(*std::next(x.begin(), i)); y.insert(w); d = "insert-own"; } break;
      case 5: if (y.count(v)) { x.erase(v); y.erase(v); d = "erase"; } break;
      case 6: if (!y.empty()) { size_t i = s.below(y.size()); V w = *std::next(y.begin(), i); x.erase(*std::next(x.begin(), i)); y.erase(w); d = "erase-own"; } break;
      case 7: if (s.chance(1, 6)) { x.clear(); y.clear(); d = "clear"; } break;
      case 8: x = c[j]; y = m[j]; d = "assign"; break;
      case 9: rel(key, x, y, c[j], m[j], tr); d = "compare"; if (s.chance(1, 2)) { MultiSet<V> t(x); auto u = y; if (s.chance(1, 2)) { t.insert(v); u.insert(v); } else if (u.count(v)) { t.erase(v); u.erase(v); } rel(key, x, y, t, u, tr + " near copy"); rel(key, t, u, x, y, tr + " near copy"); } break;
      case 10: { std::multiset<V> a = x.toStlMultiset(), b = x; MultiSet<V> r(a), q(b); same_assoc(key, r, y, tr + " rebuilt"); same_assoc(key, q, y, tr + " rebuilt"); d = "stl"; break; }
      default: { MultiSet<V> t(x); auto old = y; x.insert(v); y.insert(v); same_assoc(key, t, old, tr + " copy independent"); d = "copy"; }
    }
    vf::note("operations"); vf::sig(op * 1000003 + y.size());
    if (tr.size() < 600) tr += " " + vf::show(k) + ":" + d;
    if (y.size() < 64 || o % 16 == 0) same_assoc(key, x, y, tr);
    VF_EQ(key, cx.contains(v), (y.count(v) != 0), tr); VF_EQ(key, cx.count(v), (int)y.count(v), tr);
  }
  for (int k = 0; k < K; ++k) same_assoc(key, c[k], m[k], tr);
  if (ops > 2) vf::nontrivial();
  vf::sample([&] { return tr; });
}

template <class Kt, class V> void mmap_(vf::Src& s) {
  const char* key = "C02:multimap"; const int K = 3; int spread = s.chance(3, 4) ? (int)s.uni(1, 8) : 0;
  std::vector<MultiMap<Kt, V>> c; c.reserve(8); std::vector<std::multimap<Kt, V>> m(K); std::string tr = "MultiMap history:";
  auto fill = [&](int max) { std::multimap<Kt, V> v; int n = s.size(max); for (int i = 0; i < n; ++i) { Kt kk = Mk<Kt>::go(s, spread); v.insert({kk, Mk<V>::go(s, spread)}); } return v; };
  for (int k = 0; k < K; ++k) {
    switch (s.below(4)) {
      case 0: c.emplace_back(); break;
      case 1: case 2: { std::multimap<Kt, V> v = fill(s.chance(1, 8) ? 800 : 60); if (s.below(80) == 79) { int n = (int)s.uni(1000, s.chance(1, 3) ? 40000 : 6000), few = s.chance(1, 3) ? (int)s.uni(1, n) : s.chance(1, 2) ? (int)s.uni(1, 20) : n; for (int i = 0; i < n; ++i) v.insert({Nth<Kt>::at(i % few), Nth<V>::at(i)}); vf::note("bulk fills"); } c.emplace_back(v); m[k] = v; break; }
      default: { std::pair<const Kt, V> a(Mk<Kt>::go(s, spread), Mk<V>::go(s, spread)), b(Mk<Kt>::go(s, spread), Mk<V>::go(s, spread)); MultiMap<Kt, V> x{a, b, a}; c.push_back(x); m[k] = {a, b, a}; }
    }
    same_assoc(key, c[k], m[k], "after construction");
    if (m[k].size() > 500) for (int i = 0; i < 3; ++i) { Kt kk = std::next(m[k].begin(), s.below(m[k].size()))->first; auto f = c[k].find(kk); std::set<V> w; for (auto r = m[k].equal_range(kk); r.first != r.second; ++r.first) w.insert(r.first->second); same_assoc(key, f, w, "find in a large multimap"); VF_EQ(key, c[k].count(kk), (int)m[k].count(kk), "count in a large multimap"); }
  }
  int ops = s.size(60);
  for (int o = 0; o < ops; ++o) {
    int k = (int)s.below(K), j = (int)s.below(K); MultiMap<Kt, V>& x = c[k]; const MultiMap<Kt, V>& cx = x; auto& y = m[k]; uint64_t op = s.below(10); std::string d;
    Kt kk = (!y.empty() && s.chance(3, 4)) ? std::next(y.begin(), s.below(y.size()))->first : Mk<Kt>::go(s, spread);
    switch (op) {
      case 0: x.erase(kk); y.erase(kk); d = "erase"; break;
      case 1: if (!y.empty()) { size_t i = s.below(y.size()); Kt w = std::next(y.begin(), i)->first; x.erase(std::next(x.begin(), i)->first); y.erase(w); d = "erase-own"; } break;
      case 2: if (s.chance(1, 6)) { x.clear(); y.clear(); d = "clear"; } break;
      case 3: x = c[j]; y = m[j]; d = "assign"; break;
      case 4: rel(key, x, y, c[j], m[j], tr); d = "compare"; if (s.chance(1, 2)) { MultiMap<Kt, V> t(x); auto u = y; t.erase(kk); u.erase(kk); rel(key, x, y, t, u, tr + " near copy"); rel(key, t, u, x, y, tr + " near copy"); } break;
      case 5: { std::multimap<Kt, V> a = x.toStlMultimap(), b = x; MultiMap<Kt, V> r(a), q(b); same_assoc(key, r, y, tr + " rebuilt"); same_assoc(key, q, y, tr + " rebuilt"); d = "stl"; break; }
      case 6: { std::multimap<Kt, V> v = fill(40); MultiMap<Kt, V> t(v); x = t; y = v; d = "refill"; break; }
      default: { auto f = x.find(kk); std::set<V> w; for (auto r = y.equal_range(kk); r.first != r.second; ++r.first) w.insert(r.first->second); same_assoc(key, f, w, tr + " find"); d = "find"; }
    }
    vf::note("operations"); vf::sig(op * 1000003 + y.size());
    if (tr.size() < 600) tr += " " + vf::show(k) + ":" + d;
    if (y.size() < 64 || o % 16 == 0) same_assoc(key, x, y, tr);
    VF_EQ(key, cx.count(kk), (int)y.count(kk), tr);
  }
  for (int k = 0; k < K; ++k) same_assoc(key, c[k], m[k], tr);
  if (ops > 2) vf::nontrivial();
  vf::sample([&] { return tr; });
}
void large() {
  const char* key = "C02:large";
  for (int n : {257, 1025, 32769, 65537, 140000}) {
    Map<int, int> a; Set<int> b; MultiSet<int> c; std::map<int, int> ma; std::set<int> mb; std::multiset<int> mc; std::multimap<int, int> md;
    for (int i = 0; i < n; ++i) { int k = (int)((long long)i * 7919 % n); a.set(k, i); ma[k] = i; b.insert(-k); mb.insert(-k); c.insert(k / 3); mc.insert(k / 3); md.insert({k / 2, i}); }
    MultiMap<int, int> d(md); vf::progress();
    for (int i = 0; i < n; i += 1 + i % 97) { VF_CHECK(key, a.contains(i) && a.get(i) == ma[i] && b.contains(-i) && c.count(i / 3) == (int)mc.count(i / 3) && d.count(i / 2) == (int)md.count(i / 2) && d.find(i / 2).size() == (int)md.count(i / 2), "lookup of " << i << " among " << n); }
    for (int i = 0; i < n; i += 1 + i % 31) { a.erase(i); ma.erase(i); b.erase(-i); mb.erase(-i); if (mc.count(i / 3)) { c.erase(i / 3); mc.erase(i / 3); } d.erase(i / 2); md.erase(i / 2); }
    same_assoc(key, a, ma, "large map"); same_assoc(key, b, mb, "large set"); same_assoc(key, c, mc, "large multiset"); same_assoc(key, d, md, "large multimap");
    Map<int, int> a2(a); VF_CHECK(key, a2 == a && !(a2 != a) && !(a2 < a), "copy of a large map"); a2[n - 1] = -5; VF_CHECK(key, a2 != a, "large maps differing in one value compare equal"); Set<int> b2(b); b2.insert(n); VF_CHECK(key, b2 != b && b < b2, "large sets differing in one element compare equal");
    MultiSet<int> c2(c); c2.insert(n); VF_CHECK(key, c2 != c && c < c2, "large multisets differing in one element compare equal"); MultiMap<int, int> d2(d); VF_CHECK(key, d2 == d, "copy of a large multimap");
    vf::progress(); vf::note("large associative containers");
  }
}
}  // namespace
VF_HARNESS2(C02, true, large) {
  long before = Tok::live();
  switch (s.below(8)) {
    case 0: map_<int, Tok>(s); break; case 1: map_<std::string, std::string>(s); break;
    case 2: set_<int>(s); break; case 3: set_<Tok>(s); break;
    case 4: mset_<std::string>(s); break; case 5: mset_<Tok>(s); break;
    case 6: mmap_<int, Tok>(s); break; default: mmap_<std::string, int>(s);
  }
  VF_EQ("C02:element-lifetime", Tok::live(), before, "element constructions and destructions do not balance");
}
