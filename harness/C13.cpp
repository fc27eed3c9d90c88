// zip, mapAll, filterContainer: length, order, exactly-once application, inputs untouched.
#include <deque>
#include <list>
#include <map>
#include <set>
#include "algorithm.h"
#include "containers/List.h"
#include "containers/Set.h"
#include "containers/MultiSet.h"
#include "containers/Vector.h"
#include "vf.h"
namespace {
template <class T> struct El; template <> struct El<int> { static int go(vf::Src& s) { return (int)s.range(-1000000, 1000000); } };
template <> struct El<std::string> { static std::string go(vf::Src& s) { return s.str(30, "abcdefgh"); } };
template <> struct El<char> { static char go(vf::Src& s) { return (char)s.byte(); } };
template <class C> C make(vf::Src& s, int max) { C c; int n = s.size(max); for (int i = 0; i < n; ++i) c.push_back(El<typename C::value_type>::go(s)); if (s.below(300) == 299) { typename C::value_type e[4]; for (auto& x : e) x = El<typename C::value_type>::go(s); bool ra = std::is_same<typename std::iterator_traits<typename C::iterator>::iterator_category, std::random_access_iterator_tag>::value; int more = (int)s.uni(1000, s.chance(1, 3) && ra ? 70000 : ra ? 5000 : 2500); for (int i = 0; i < more; ++i) c.push_back(e[(i % 7 + i % 5) & 3]); vf::note("long containers"); } return c; }

template <class C> void zipOne(vf::Src& s, const char* ty) {
  typedef typename C::value_type E; int k = 1 + (int)s.below(5); std::vector<C> in; int max = s.chance(1, 20) ? 200 : 12; for (int i = 0; i < k; ++i) in.push_back(make<C>(s, max));
  if (k > 1 && s.chance(1, 4)) in[s.below(k)] = C(); if (s.chance(1, 4)) for (int i = 1; i < k; ++i) in[i] = in[0];
  std::vector<C> before = in; std::vector<C> out;
  switch (k) { case 1: out = cuhksz::zip(in[0]); break; case 2: out = cuhksz::zip(in[0], in[1]); break; case 3: out = cuhksz::zip(in[0], in[1], in[2]); break; case 4: out = cuhksz::zip(in[0], in[1], in[2], in[3]); break; default: { cuhksz::Zip<C> z(in[0], in[1], in[2], in[3], in[4]); out = z(); std::vector<C> o2 = z; VF_CHECK("C13:zip", out == o2, "the two conversions of Zip differ"); } }
  size_t m = in[0].size(); for (auto& c : in) if (c.size() < m) m = c.size();
  std::string ls; for (auto& c : in) ls += " " + std::to_string(c.size());
  VF_CHECK("C13:zip", out.size() == m, ty << ": zip of sizes" << ls << " has " << out.size() << " tuples, expected " << m);
  std::vector<std::vector<E>> flat; for (auto& c : in) flat.push_back(std::vector<E>(c.begin(), c.end()));
  for (size_t i = 0; i < m; ++i) { std::vector<E> g(out[i].begin(), out[i].end()); VF_CHECK("C13:zip", g.size() == (size_t)k, ty << ": tuple " << i << " of zip of sizes" << ls << " has " << g.size() << " elements"); for (int j = 0; j < k; ++j) VF_CHECK("C13:zip", g[j] == flat[j][i], ty << ": tuple " << i << " component " << j << " of zip of sizes" << ls << " is " << g[j] << ", expected " << flat[j][i]); }
  VF_CHECK("C13:inputs", in == before, ty << ": zip changed its inputs");
  vf::note("zips"); vf::sig(ls); vf::sig((uint64_t)m * 31 + k); for (auto& f : flat) for (size_t i = 0; i < f.size() && i < 300; ++i) vf::sig(vf::show(f[i])); if (k > 1) vf::nontrivial(); vf::sample([&] { return std::string("zip ") + ty + " of sizes" + ls; });
}
template <class E> uint64_t hsh(const E& e) { std::string t = vf::show(e); uint64_t h = 7; for (char c : t) h = h * 131 + (unsigned char)c; return h; }
template <class C> std::vector<typename C::value_type> flatten(const C& c) { return std::vector<typename C::value_type>(c.begin(), c.end()); }
template <class C> void mapFilter(vf::Src& s, C& c, const char* ty, bool keepsRef) {
  typedef typename C::value_type E; std::vector<E> before = flatten(c); std::vector<E> seen; long long mod = 2 + (long long)s.below(5), rem = (long long)s.below(mod);
  auto f = cuhksz::mapAll(c, [&](const E& e) -> uint64_t { seen.push_back(e); return hsh(e); });
  VF_CHECK("C13:map", seen == before, ty << ": mapAll applied the function to " << vf::show_seq(seen) << " for " << vf::show_seq(before));
  VF_CHECK("C13:map", f.size() == before.size(), ty << ": mapAll gives " << f.size() << " results for " << before.size() << " elements"); for (size_t i = 0; i < f.size(); ++i) VF_CHECK("C13:map", f[i] == hsh(before[i]), ty << ": result " << i << " of mapAll is wrong for " << vf::show_seq(before));
  // a result type without default constructor or with its own order of calls (stateful function)
  size_t cnt = 0; auto idx = cuhksz::mapAll(c, [&](const E&) -> size_t { return cnt++; }); for (size_t i = 0; i < idx.size(); ++i) VF_CHECK("C13:map", idx[i] == i, ty << ": call order of mapAll, element " << i << " was call " << idx[i]); VF_CHECK("C13:map", cnt == before.size(), ty << ": mapAll called the function " << cnt << " times for " << before.size() << " elements");
  seen.clear(); std::vector<E> w; for (auto& e : before) if ((long long)(hsh(e) % mod) == rem) w.push_back(e);
  auto g = cuhksz::filterContainer(c, [&](const E& e) -> bool { seen.push_back(e); return (long long)(hsh(e) % mod) == rem; });
  VF_CHECK("C13:filter", seen == before, ty << ": filterContainer tested " << vf::show_seq(seen) << " for " << vf::show_seq(before)); VF_CHECK("C13:filter", g == w, ty << ": filterContainer kept " << vf::show_seq(g) << ", expected " << vf::show_seq(w));
  // stateful predicate: every second element
  cnt = 0; auto h = cuhksz::filterContainer(c, [&](const E&) -> bool { return cnt++ % 2 == 0; }); std::vector<E> w2; for (size_t i = 0; i < before.size(); i += 2) w2.push_back(before[i]); VF_CHECK("C13:filter", h == w2, ty << ": every second element is " << vf::show_seq(h) << ", expected " << vf::show_seq(w2));
  VF_CHECK("C13:inputs", flatten(c) == before, ty << ": mapAll or filterContainer changed the container");
  vf::note("maps and filters"); vf::sig(ty); vf::sig((uint64_t)mod * 8 + rem); for (auto& e : before) vf::sig(hsh(e)); if (before.size() > 1) vf::nontrivial(); vf::sample([&] { return std::string("filter/map ") + ty + " " + vf::show_seq(before, 12); });
}
// the function receives the elements themselves
template <class C> void byRef(vf::Src& s, const char* ty) {
  C c = make<C>(s, 20); C before = c; auto r = cuhksz::mapAll(c, [](int& x) -> int { int o = x; x = o / 2 + 1; return o; });
  std::vector<int> b(before.begin(), before.end()), a(c.begin(), c.end()); VF_CHECK("C13:reference", r == b, ty << ": mapAll results with a modifying function"); for (size_t i = 0; i < a.size(); ++i) VF_CHECK("C13:reference", a[i] == b[i] / 2 + 1, ty << ": the function did not receive element " << i << " itself");
  C c2 = before; auto f = cuhksz::filterContainer(c2, [](int& x) -> bool { int o = x; x = o / 2 + 1; return o % 3 != 0; });
  std::vector<int> a2(c2.begin(), c2.end()), w2; for (int o : b) if (o % 3 != 0) w2.push_back(o / 2 + 1);
  VF_CHECK("C13:reference", a2 == a, ty << ": a modifying predicate did not receive the elements themselves"); VF_CHECK("C13:reference", f == w2, ty << ": filterContainer with a modifying predicate kept " << vf::show_seq(f) << ", expected " << vf::show_seq(w2));
  vf::note("modifying maps"); vf::sig(vf::show_seq(b)); if (!b.empty()) vf::nontrivial();
}
}  // namespace
VF_HARNESS(C13) {
  int max = s.chance(1, 20) ? 500 : 30;
  switch (s.below(16)) {
    case 0: zipOne<std::vector<int>>(s, "vector<int>"); break; case 1: zipOne<std::list<int>>(s, "list<int>"); break; case 2: zipOne<std::string>(s, "string"); break; case 3: zipOne<std::vector<std::string>>(s, "vector<string>"); break; case 4: zipOne<std::deque<int>>(s, "deque<int>"); break; case 5: zipOne<std::vector<int>>(s, "vector<int>"); break;
    case 6: { auto c = make<std::vector<int>>(s, max); mapFilter(s, c, "vector<int>", true); break; } case 7: { auto c = make<std::list<std::string>>(s, max); mapFilter(s, c, "list<string>", true); break; } case 8: { auto c = make<std::string>(s, max); mapFilter(s, c, "string", true); break; } case 9: { const auto c = make<std::vector<std::string>>(s, max); mapFilter(s, c, "const vector<string>", true); break; }
    case 10: { cuhksz::Vector<int> c; for (int x : make<std::vector<int>>(s, max)) c.push(x); mapFilter(s, c, "Vector<int>", true); break; } case 11: { cuhksz::List<int> c; for (int x : make<std::vector<int>>(s, max)) c.push(x); mapFilter(s, c, "List<int>", true); break; }
    case 12: { cuhksz::Set<int> c; for (int x : make<std::vector<int>>(s, max)) c.insert(x % 50); mapFilter(s, c, "Set<int>", true); break; } case 13: { std::multiset<int> c; for (int x : make<std::vector<int>>(s, max)) c.insert(x % 20); mapFilter(s, c, "multiset<int>", true); break; }
    case 14: byRef<std::vector<int>>(s, "vector<int>"); break; default: byRef<std::list<int>>(s, "list<int>");
  }
}
