// Shared reading: several threads read one unmodified object at the same time (race detector build).
#include <atomic>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include "json_model.h"
#include "algorithm.h"
#include "base64/base64_functions.h"
#include "containers.h"
#include "geometry/Point.h"
#include "graph/Tree.h"
#include "math_utils/BigNum.h"
#include "math_utils/Fraction.h"
#include "math_utils/Matrix.h"
#include "math_utils/math_functions.h"
#include "network/network_functions.h"
#include "string_utils/StringCast.h"
#include "string_utils/Trie.h"

namespace {
using namespace cuhksz;
typedef std::function<std::string()> Q;
// An object (kept alive by the closures) and the read-only questions that can be asked about it.
struct Obj { std::vector<Q> q; const char* kind; };
template <class T> std::string S(const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
template <class C> std::string all(const C& c) { std::string r; for (auto it = c.begin(); it != c.end(); ++it) r += S(*it) + ","; return r; }
template <class C> std::string allp(const C& c) { std::string r; for (auto it = c.begin(); it != c.end(); ++it) r += S(it->first) + "=" + S(it->second) + ","; return r; }
std::string word(vf::Src& s) { return s.str(20, "abcxyz "); }

// the comparisons of two containers, also of one with itself, and assignment from one
template <class C> void comparisons(Obj& o, std::shared_ptr<C> c, std::shared_ptr<C> d) {
  o.q.push_back([c, d] { return S(*c == *d) + S(*d == *c) + S(*c != *d) + S(*c == *c); });
  o.q.push_back([c, d] { return S(*c < *d) + S(*d <= *c) + S(*c > *d) + S(*d >= *c) + S(*c < *c); });
  o.q.push_back([c, d] { C t; t = *c; return S(t == *c) + S(t.size()) + S(t == *d); });
}
template <class C> Obj seq(vf::Src& s, const char* kind) {
  auto c = std::make_shared<C>(); int n = 1 + s.size(30); for (int i = 0; i < n; ++i) c->push(word(s)); auto d = std::make_shared<C>(*c); if (s.chance(1, 2)) d->push("z"); std::shared_ptr<const C> k = c; Obj o; o.kind = kind; int i = (int)s.below(n);
  o.q = {[k] { return S(k->size()); }, [k] { return S(k->isEmpty()); }, [k] { return all(*k); }, [k, i] { return (*k)[i]; }, [k] { return k->first() + k->last(); }, [k] { C t(*k); t.push("x"); return all(t); }, [k] { C a(*k), b(*k); return S(a == b); }, [c, d] { return S(*c == *d) + S(*c != *d); }, [c, d] { return S(*c < *d) + S(*d <= *c) + S(*c > *d) + S(*c >= *d); }};
  comparisons(o, c, d); return o;
}
template <class C> Obj line(vf::Src& s, const char* kind, std::function<void(C&, std::string)> in, std::function<std::string(C&)> out, std::function<std::string(const C&)> peek) {
  auto c = std::make_shared<C>(); int n = 1 + s.size(20); for (int i = 0; i < n; ++i) in(*c, word(s)); auto d = std::make_shared<C>(*c); if (s.chance(1, 3)) in(*d, "z"); std::shared_ptr<const C> k = c; Obj o; o.kind = kind;
  o.q = {[k] { return S(k->size()); }, [k, peek] { return peek(*k); }, [k, out] { C t(*k); std::string r; while (t.size()) r += out(t) + ","; return r; }, [c] { return S(c->isEmpty()); }};
  comparisons(o, c, d); return o;
}
Obj make(vf::Src& s, int which) {
  Obj o; o.kind = "?";
  switch (which) {
    case 0: return seq<Vector<std::string>>(s, "Vector");
    case 1: return seq<List<std::string>>(s, "List");
    case 2: return line<Queue<std::string>>(s, "Queue", [](Queue<std::string>& q, std::string w) { q.enqueue(w); }, [](Queue<std::string>& q) { return q.dequeue(); }, [](const Queue<std::string>& q) { return q.first() + "/" + q.last(); });
    case 3: return line<Stack<std::string>>(s, "Stack", [](Stack<std::string>& q, std::string w) { q.push(w); }, [](Stack<std::string>& q) { return q.pop(); }, [](const Stack<std::string>& q) { return q.top(); });
    case 4: { auto c = std::make_shared<Map<int, std::string>>(); int n = 1 + s.size(20); for (int i = 0; i < n; ++i) c->set((int)s.below(30), word(s)); auto d = std::make_shared<Map<int, std::string>>(*c); int key = c->begin()->first; std::shared_ptr<const Map<int, std::string>> k = c; o.kind = "Map"; int p = (int)s.below(30);
      o.q = {[k] { return S(k->size()); }, [k] { return allp(*k); }, [k, key] { return k->get(key); }, [c, p] { return S(c->contains(p)); }, [k] { Map<int, std::string> t(*k); return allp(t); }, [k] { return S(k->isEmpty()); }, [c] { auto t = c->toStlMap(); return S(t.size()) + t.begin()->second; }}; comparisons(o, c, d); return o; }
    case 5: { auto c = std::make_shared<Set<std::string>>(); int n = s.size(20); for (int i = 0; i < n; ++i) c->insert(word(s)); auto d = std::make_shared<Set<std::string>>(*c); std::shared_ptr<const Set<std::string>> k = c; std::string p = word(s); o.kind = "Set"; o.q = {[k] { return S(k->size()); }, [k] { return all(*k); }, [k, p] { return S(k->contains(p)); }, [k] { Set<std::string> t(*k); return all(t); }, [c] { auto t = c->toStlSet(); std::string r; for (auto& e : t) r += e; return r; }}; comparisons(o, c, d); return o; }
    case 6: { auto c = std::make_shared<MultiSet<std::string>>(); int n = s.size(20); for (int i = 0; i < n; ++i) c->insert(s.str(2, "ab")); std::shared_ptr<const MultiSet<std::string>> k = c; std::string p = s.str(2, "ab"); o.kind = "MultiSet"; o.q = {[k] { return S(k->size()); }, [k] { return all(*k); }, [k, p] { return S(k->count(p)); }, [k, p] { return S(k->contains(p)); }, [c] { auto t = c->toStlMultiset(); std::string r; for (auto& e : t) r += e; return r; }}; auto d = std::make_shared<MultiSet<std::string>>(*c); if (s.chance(1, 3)) d->insert("b"); comparisons(o, c, d); return o; }
    case 7: { std::multimap<int, std::string> m; int n = s.size(20); for (int i = 0; i < n; ++i) m.insert({(int)s.below(6), word(s)}); auto c = std::make_shared<MultiMap<int, std::string>>(m); std::shared_ptr<const MultiMap<int, std::string>> k = c; auto d = std::make_shared<MultiMap<int, std::string>>(*c); int p = (int)s.below(6); o.kind = "MultiMap"; o.q = {[k] { return S(k->size()); }, [k] { return allp(*k); }, [k, p] { return S(k->count(p)); }, [c] { return S(c->toStlMultimap().size()); }}; if (n) { int w = m.begin()->first; o.q.push_back([c, w] { auto f = c->find(w); return all(f); }); } comparisons(o, c, d); return o; }
    case 8: case 9: { int b = 30; jm::J j = jm::gen(s, 3, b); std::shared_ptr<const JSONObject> k(new JSONObject(jm::build(j, s))); std::string key = "k"; o.kind = "JSON"; std::string text = k->dump();
      o.q = {[k] { return k->dump(); }, [k] { return S(k->size()) + "/" + S(k->length()); }, [k, key] { return S(k->hasKey(key)); }, [k] { JSONObject t(*k); t["new"] = 1; return t.dump(); }, [k] { return S((int)k->getType()); }, [k] { return k->toString() + S(k->toInt()) + S(k->toDouble()) + S(k->toFloat()) + S(k->toBool()); }, [k] { std::string r; for (auto& e : k->ArrayRange()) r += e.dump(); for (auto& e : k->ObjectRange()) r += e.first + e.second.dump(); return r; }, [text] { return loadJSON(text).dump(); }, [k] { JSONObject a; a.append(*k); return a.dump(); }};
      if (k->getType() == JSONObject::Type::Array && k->size()) o.q.push_back([k] { return k->at(0u).dump(); });
      if (k->getType() == JSONObject::Type::String) o.q.push_back([k] { return k->toString(); });
      return o; }
    case 10: { int d = 1 + (int)s.below(4); auto c = std::make_shared<Matrix<long long>>(d, d); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) (*c)[i][j] = s.uni(-5, 5); auto m = std::make_shared<const Matrix<long long>>(*c); std::shared_ptr<const Matrix<long long>> k = c; int e = (int)s.below(6), x = (int)s.below(d); o.kind = "Matrix";
      o.q = {[k] { return k->toString(); }, [k] { return S(*k + *k); }, [k] { return S(*k * *k); }, [k, e] { return S(pow(*k, e)); }, [k] { return S(*k - *k); }, [k, x] { return S((*k)[x][x]); }, [k] { Matrix<long long> t(*k); t += *k; return S(t == *k) + S(t != *k) + S(t); }, [k, m] { return S(*k == *m) + S(*m != *k); }, [k] { return S(*k); }}; return o; }
    case 11: { std::string a = std::to_string(s.uni(1, 999999999)) + s.str(12, "0123456789"), b = std::to_string(s.uni(1, 999999)); std::shared_ptr<const BigNum<60>> k(new BigNum<60>(a)), m(new BigNum<60>(b)); o.kind = "BigNum";
      o.q = {[k] { return k->toString(); }, [k, m] { return S(*k + *m); }, [k, m] { return S(*k * *m); }, [k, m] { return S(*k - *m); }, [k, m] { return S(*k < *m) + S(*k == *m) + S(*k >= *m); }, [k] { BigNum<60> t(*k); ++t; return S(t); }}; return o; }
    case 12: { int d = (int)s.uni(1, 500); std::shared_ptr<const Fraction> k(new Fraction((int)s.uni(-500, 500), d)), m(new Fraction((int)s.uni(1, 500), d + 1)); o.kind = "Fraction"; o.q = {[k] { return S(*k); }, [k, m] { return S(*k + *m); }, [k, m] { return S(*k * *m); }, [k, m] { return S(*k / *m); }, [k, m] { return S(*k - *m); }, [k, m] { return S(*k < *m) + S(*k == *m) + S(*k >= *m); }}; return o; }
    case 13: case 14: { auto nd = std::make_shared<std::vector<std::unique_ptr<Node>>>(); auto t = std::make_shared<Tree>(); int n = 2 + s.size(60), shape = (int)s.below(3); for (int i = 0; i < n; ++i) nd->emplace_back(new Node(i, i * 3)); t->setRoot((*nd)[0].get()); for (int i = 1; i < n; ++i) t->addNode((*nd)[i].get(), (*nd)[shape == 0 ? i - 1 : shape == 1 ? (i - 1) / 2 : s.below(i)].get()); o.kind = "Tree";
      for (int z = 0; z < 8; ++z) { Node* x = (*nd)[s.below(n)].get(); Node* y = (*nd)[s.below(n)].get(); int lv = (int)s.below(x->getHeight() + 1); o.q.push_back([nd, t, x, y] { return S(t->LCA(x, y)->getID()); }); o.q.push_back([nd, t, x, y] { return S(t->getDistance(x, y)); }); o.q.push_back([nd, t, x, lv] { return S(x->getAncestor(lv)->getID()) + "/" + S(x->getVal()) + "/" + S(x->getDegree()) + "/" + S(x->getSon().size()) + "/" + S(t->getRoot()->getID()); }); } return o; }
    case 15: case 16: { auto t = std::make_shared<Trie>(); int n = 1 + s.size(25); std::vector<std::string> w; for (int i = 0; i < n; ++i) { w.push_back(s.str(8, "abcd")); if (!t->contain(w.back())) t->insert(w.back()); } o.kind = "Trie"; std::string no = s.str(9, "abcde");
      for (auto& x : w) o.q.push_back([t, x] { return S(t->contain(x)); }); o.q.push_back([t, no] { return S(t->contain(no)); }); o.q.push_back([t] { return S(t->size()); }); for (int z = 0; z < 3; ++z) o.q.push_back([t] { std::string r; for (auto x : *t) r += x + ","; return r; }); o.q.push_back([t] { Trie c(*t); c.insert("zz"); return S(c.size()); }); return o; }
    case 17: { std::shared_ptr<const cuhksz::Point<2>> a(new cuhksz::Point<2>{s.real(-9, 9), s.real(-9, 9)}), b(new cuhksz::Point<2>{s.real(-9, 9), s.real(-9, 9)}); o.kind = "Point"; o.q = {[a, b] { auto c = *a + *b; return S(c[0]) + "," + S(c[1]); }, [a, b] { return S(*a * *b); }, [a] { return S((*a)[0]); }, [a, b] { return S(*a == *b); }}; return o; }
    default: { std::shared_ptr<const std::string> a(new std::string(s.text(60))), b(new std::string(s.str(6, "ab"))); o.kind = "text"; std::string e = urlEncode(*a), f = base64Encode(*a); o.q = {[a] { return base64Encode(*a); }, [f] { return base64Decode(f); }, [a] { return urlEncode(*a); }, [e] { return urlDecode(e); }, [a, b] { return S(editDistance(*a, *b)); }, [a, b] { return S(kmpSearch(*a, *b)); }, [b] { return S((int)stringCast<int>("12" + *b)); }, [] { return S(binomial<long long>(20, 9)) + S(gcd(84, 36)); }}; return o; }
  }
}
}  // namespace

VF_HARNESS2(C31, false, nullptr) {
  vf::leak_exempt();
  int which = (int)s.below(19); uint64_t sd = s.next64(), ord = s.next64(); int T = 2 + (int)s.below(3), per = 4 + (int)s.below(20);
  vf::Src s1(sd), s2(sd); Obj o = make(s1, which), twin = make(s2, which); int n = (int)o.q.size();
  std::vector<std::string> want; for (auto& q : twin.q) want.push_back(q());  // answers of an identical object nobody shares
  std::atomic<int> ready{0}; std::vector<std::string> bad(T); std::vector<std::thread> th;
  for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
    uint64_t x = ord + 77 * t + 1; ++ready; while (ready.load() < T) std::this_thread::yield();
    for (int i = 0; i < per; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; int k = (int)((x >> 33) % n); if ((x >> 20) % 5 == 0) std::this_thread::yield(); std::string g; try { g = o.q[k](); } catch (...) { g = "<exception or exit>"; } if (g != want[k] && bad[t].empty()) bad[t] = "question " + std::to_string(k) + " answered " + g + ", expected " + want[k]; }
  });
  for (auto& t : th) t.join();
  for (int t = 0; t < T; ++t) VF_CHECK("C31:shared-read", bad[t].empty(), o.kind << " read by " << T << " threads: " << bad[t]);
  for (int k = 0; k < n; ++k) { std::string g = o.q[k](); VF_CHECK("C31:after-read", g == want[k], o.kind << " after shared reading: question " << k << " answered " << g << ", expected " << want[k]); }
  vf::note("shared questions answered", (uint64_t)T * per); vf::note(o.kind); vf::nontrivial(); vf::sig(sd); vf::sig(ord);
  vf::sample([&] { return std::string(o.kind) + " read by " + std::to_string(T) + " threads, " + std::to_string(per) + " questions each"; });
}
