// Fault injection: when an allocation or the copy of an element fails in the middle of an operation, nothing is leaked,
// destroyed twice or corrupted, uninvolved objects keep their values and the failed target stays usable.
#include <cstdlib>
#include <list>
#include <map>
#include <new>
#include <set>
#include "json_model.h"
#include "algorithm.h"
#include "base64/base64_functions.h"
#include "containers.h"
#include "graph/Edge.h"
#include "graph/SegmentTree.h"
#include "graph/Vertex.h"
#include "math_utils/Fraction.h"
#include "math_utils/Matrix.h"
#include "network/network_functions.h"
#include "string_utils/StringCast.h"
#include "string_utils/Trie.h"
#include "graph/Tree.h"
#include "math_utils/math_functions.h"
#include "random.h"

namespace {
bool g_armed = false, g_fired = false; long g_left = 0; unsigned long g_seen = 0;
inline void tick() { if (g_armed) { ++g_seen; if (g_left-- == 0) { g_armed = false; g_fired = true; throw std::bad_alloc(); } } }
void* get(std::size_t n) { tick(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
}  // namespace
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return std::malloc(n ? n : 1); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

namespace {
using namespace cuhksz;
// An element whose copy may fail, and whose lifetime is monitored.
struct El {
  static long& live() { static long n = 0; return n; }
  int v; const El* self; int* heap;
  El(int x = 0) : v(x), self(this), heap(nullptr) { heap = new int(x); ++live(); }
  El(const El& o) : v(o.ok().v), self(this), heap(nullptr) { tick(); heap = new int(v); ++live(); }
  El& operator=(const El& o) { ok(); o.ok(); tick(); v = o.v; *heap = v; return *this; }
  ~El() { ok(); delete heap; heap = nullptr; self = nullptr; --live(); }
  const El& ok() const { if (self != this || !heap || *heap != v) { fprintf(stderr, "runtime error: element used outside its lifetime\n"); abort(); } return *this; }
  bool operator==(const El& o) const { return ok().v == o.ok().v; }
  bool operator!=(const El& o) const { return !(*this == o); }
  bool operator<(const El& o) const { return ok().v < o.ok().v; }
  bool operator>(const El& o) const { return o < *this; } bool operator<=(const El& o) const { return !(o < *this); } bool operator>=(const El& o) const { return !(*this < o); }
};
std::ostream& operator<<(std::ostream& o, const El& e) { return o << e.v; }

// Runs op with the k-th allocation/copy failing; true iff it failed.
std::string g_tr;
template <class F> bool faulty(vf::Src& s, const char* name, F op) {
  long k = s.chance(1, 2) ? (long)s.below(4) : (long)s.below(64);
  if (g_tr.size() < 400) g_tr += std::string(" ") + name + "/" + std::to_string(k);
  g_left = k; g_fired = false; g_seen = 0; bool threw = false; g_armed = true;
  try { op(); g_armed = false; } catch (const std::bad_alloc&) { g_armed = false; threw = true; }
  catch (...) { g_armed = false; throw; }
  vf::sig(k * 31 + threw); vf::note(g_fired ? "injected failures" : "operations completed"); if (g_fired) vf::nontrivial();
  VF_CHECK("C30:spurious", !threw || g_fired, "bad_alloc without an injected failure in " << name);
  return g_fired;
}
template <class C> std::vector<typename C::value_type> items(const C& c) { std::vector<typename C::value_type> r; for (auto it = c.begin(); it != c.end(); ++it) r.push_back(*it); return r; }

// ---- sequences
template <class T> void special(vf::Src& s, Vector<T>& x, Vector<T>& y, const T& e) { switch (s.below(4)) { case 0: faulty(s, "shuffle-free sub", [&] { std::vector<T> q = x.toStlVector(); Vector<T> t(q); x = t; }); break; case 1: faulty(s, "append", [&] { x.push(y.size() ? y[0] : e); }); break; case 2: faulty(s, "text", [&] { std::ostringstream o; o << x; }); break; default: faulty(s, "init", [&] { Vector<T> t{e, e, e}; x = t; }); } }
template <class T> void special(vf::Src& s, List<T>& x, List<T>& y, const T& e) { switch (s.below(6)) { case 0: faulty(s, "push_front", [&] { x.push_front(e); }); break; case 1: if (!x.isEmpty()) faulty(s, "pop_front", [&] { x.pop_front(); }); break; case 2: faulty(s, "sort", [&] { x.sort(); }); break; case 3: faulty(s, "reverse", [&] { x.reverse(); }); break; case 4: faulty(s, "list", [&] { std::list<T> q = x.toStlList(); List<T> t(q); x = t; }); break; default: faulty(s, "init", [&] { List<T> t{e, e, e}; x = t; }); } }
template <class C> void seq(vf::Src& s, const char* key) {
  const int K = 3; std::vector<C> c(K); std::vector<std::vector<El>> m(K);
  for (int k = 0; k < K; ++k) { int n = s.size(12); for (int i = 0; i < n; ++i) { El e((int)s.below(5)); c[k].push(e); m[k].push_back(e); } }
  int n = 1 + s.size(25);
  for (int o = 0; o < n && !s.exhausted(); ++o) {
    int k = (int)s.below(K), j = (int)s.below(K); C& x = c[k]; El e((int)s.below(5)); int at = m[k].empty() ? 0 : (int)s.below(m[k].size()); bool f = false, has = !m[k].empty();
    switch (s.below(11)) {
      case 9: special(s, x, c[j], e); break;
      case 0: f = faulty(s, "push", [&] { x.push(e); }); break;
      case 1: if (has) f = faulty(s, "insert", [&] { x.insert(at, e); }); break;
      case 2: if (has) f = faulty(s, "remove", [&] { x.erase(at); }); break;
      case 3: if (has) f = faulty(s, "pop", [&] { x.pop(); }); break;
      case 4: f = faulty(s, "assign", [&] { x = c[j]; }); break;
      case 5: f = faulty(s, "copy", [&] { C t(c[j]); t.push(e); x = t; }); break;
      case 6: if (has) f = faulty(s, "set", [&] { x[at] = e; }); break;
      case 7: f = faulty(s, "convert", [&] { C t(5, e); t.clear(); }); break;
      default: f = faulty(s, "clear", [&] { x.clear(); });
    }
    (void)f;
    // the target is still a sequence of live elements; everything else is untouched
    auto now = items(x); VF_EQ(key, (int)now.size(), x.size(), "size and iteration disagree;" << g_tr); VF_EQ(key, x.isEmpty(), now.empty(), g_tr);
    m[k] = now;
    for (int q = 0; q < K; ++q) if (q != k) { auto g = items(c[q]); VF_CHECK(key, g == m[q], "an uninvolved container changed;" << g_tr); }
  }
}
// ---- Queue / Stack
template <class T> T out(Queue<T>& q) { return q.dequeue(); }
template <class T> T out(Stack<T>& q) { return q.pop(); }
template <class T> void in(Queue<T>& q, const T& e) { q.enqueue(e); }
template <class T> void in(Stack<T>& q, const T& e) { q.push(e); }
template <class C> std::vector<El> drain(C c) { std::vector<El> r; while (!c.isEmpty()) r.push_back(out(c)); return r; }
template <class C> void fifo(vf::Src& s, const char* key) {
  const int K = 3; std::vector<C> c(K); std::vector<std::vector<El>> m(K);
  for (int k = 0; k < K; ++k) { int n = s.size(12); for (int i = 0; i < n; ++i) in(c[k], El((int)s.below(100))); m[k] = drain(c[k]); }
  int n = 1 + s.size(20);
  for (int o = 0; o < n && !s.exhausted(); ++o) {
    int k = (int)s.below(K), j = (int)s.below(K); C& x = c[k]; El e((int)s.below(100));
    switch (s.below(5)) {
      case 0: faulty(s, "in", [&] { in(x, e); }); break;
      case 1: if (!x.isEmpty()) faulty(s, "out", [&] { out(x); }); break;
      case 2: faulty(s, "assign", [&] { x = c[j]; }); break;
      case 3: faulty(s, "clear", [&] { x.clear(); }); break;
      default: faulty(s, "copy", [&] { C t(c[j]); in(t, e); });
    }
    auto now = drain(x); VF_EQ(key, (int)now.size(), x.size(), "size and contents disagree;" << g_tr); m[k] = now;
    for (int q = 0; q < K; ++q) if (q != k) VF_CHECK(key, drain(c[q]) == m[q], "an uninvolved container changed;" << g_tr);
  }
}
// ---- Map / MultiMap / Set / MultiSet
template <class C, class Put, class Del> void assoc(vf::Src& s, const char* key, Put put, Del del) {
  const int K = 2; std::vector<C> c(K);
  for (int k = 0; k < K; ++k) { int n = s.size(10); for (int i = 0; i < n; ++i) put(c[k], El((int)s.below(6)), El((int)s.below(6))); }
  auto flat = [](const C& x) { int r = 0; for (auto it = x.begin(); it != x.end(); ++it) ++r; return r; };
  int n = 1 + s.size(20);
  for (int o = 0; o < n && !s.exhausted(); ++o) {
    int k = (int)s.below(K), j = (int)s.below(K); C& x = c[k]; El a((int)s.below(6)), b((int)s.below(6)); C other(c[1 - k]);
    switch (s.below(5)) {
      case 0: faulty(s, "put", [&] { put(x, a, b); }); break;
      case 1: faulty(s, "del", [&] { del(x, a); }); break;
      case 2: faulty(s, "assign", [&] { x = c[j]; }); break;
      case 3: faulty(s, "clear", [&] { x.clear(); }); break;
      default: faulty(s, "copy", [&] { C t(c[j]); put(t, a, b); });
    }
    VF_EQ(key, flat(x), x.size(), "size and iteration disagree;" << g_tr);
    VF_CHECK(key, c[1 - k] == other, "an uninvolved container changed;" << g_tr);
  }
}
// ---- JSON
using jm::J;
void json(vf::Src& s) {
  const char* key = "C30:json"; const int K = 3; JSONObject x[K]; J m[K];
  for (int k = 0; k < K; ++k) { int b = 8; m[k] = jm::gen(s, 2, b); x[k] = jm::build(m[k], s); }
  std::string text = x[0].dump();
  int n = 1 + s.size(25);
  for (int o = 0; o < n && !s.exhausted(); ++o) {
    int k = (int)s.below(K), j = (int)s.below(K); JSONObject& t = x[k]; std::string big(40, 'q'), w = s.str(30, "ab\"\\\n"); int idx = s.chance(1, 5) ? (int)s.below(300) : (int)s.below(9);
    std::string keep[K]; for (int q = 0; q < K; ++q) keep[q] = x[q].dump();
    switch (s.below(14)) {
      case 0: faulty(s, "assign", [&] { t = x[j]; }); break;
      case 1: faulty(s, "append", [&] { t.append(x[j]); }); break;
      case 2: faulty(s, "append3", [&] { t.append(1, big, x[j]); }); break;
      case 3: faulty(s, "index", [&] { t[idx] = 5; }); break;
      case 4: faulty(s, "key", [&] { t[big] = big; }); break;
      case 5: faulty(s, "string", [&] { t = big; }); break;
      case 6: faulty(s, "load", [&] { t = loadJSON(text); }); break;
      case 7: faulty(s, "dump", [&] { std::string q = t.dump(); }); break;
      case 8: faulty(s, "copy", [&] { JSONObject q(x[j]); q[big] = x[k]; t = std::move(q); }); break;
      case 9: faulty(s, "list", [&] { t = JSONObject{"k1", big, "k2", JSONObject::Array(1, big, nullptr), "k3", x[j]}; }); break;
      case 10: faulty(s, "array", [&] { t = JSONObject::Array(big, 1, x[j]); }); break;
      case 11: faulty(s, "part", [&] { if (t.size() > 0 && t.getType() == JSONObject::Type::Array) t = t[0]; }); break;
      case 12: faulty(s, "null", [&] { t = nullptr; }); break;
      default: faulty(s, "number", [&] { if (idx % 2) t = idx; else t = 2.5; });
    }
    // still a value: it can be dumped, and its dump loads
    std::string d = t.dump(); JSONObject back = loadJSON(d); VF_EQ(key, back.dump(), d, "after a failed operation the value does not survive a round trip;" << g_tr);
    for (int q = 0; q < K; ++q) if (q != k) VF_EQ(key, x[q].dump(), keep[q], "an uninvolved value changed;" << g_tr);
    if (d.size() > 4000) t = 1;
  }
}
// ---- other components: fail, then destroy or assign
void misc(vf::Src& s) {
  std::string txt = s.text(60), txt2 = s.str(40, "ab");
  switch (s.below(18)) {
    case 0: { int d = 1 + (int)s.below(4); Matrix<long long> a(d, s.chance(1, 2) ? d : 1 + (int)s.below(4)), b(a), c(2, 5); c[1][4] = 7; a[0][0] = 2; Matrix<long long> keep(a), sq(Matrix<long long>::idMat(3)); sq[0][2] = 1; Matrix<long long> keepsq(sq), keepc(c);
      for (int i = 0; i < 6; ++i) { switch (s.below(12)) { case 0: faulty(s, "m-assign", [&] { b = c; }); break; case 1: faulty(s, "m-copy", [&] { Matrix<long long> t(c); b = t; }); break; case 2: faulty(s, "m-add", [&] { b = a + a; }); break; case 3: faulty(s, "m-new", [&] { Matrix<long long> t(7, 9); }); break; case 4: faulty(s, "m-text", [&] { c.toString(); }); break; case 5: faulty(s, "m-mul", [&] { b = sq * sq; }); break; case 6: faulty(s, "m-pow", [&] { b = pow(sq, 11); }); break; case 7: faulty(s, "m-id", [&] { b = Matrix<long long>::idMat(5); }); break; case 8: faulty(s, "m-sub", [&] { b = a - a; }); break; case 9: faulty(s, "m-muleq", [&] { Matrix<long long> t(sq); t *= sq; b = t; }); break; case 10: faulty(s, "m-print", [&] { std::ostringstream o; o << c; }); break; default: faulty(s, "m-ini", [&] { Matrix<long long> t(std::vector<std::vector<int>>(3, std::vector<int>(4, 1))); b = t; }); }
        VF_CHECK("C30:matrix", a == keep && sq == keepsq && c == keepc, "an uninvolved matrix changed;" << g_tr); if (s.chance(1, 3)) { b = a; VF_CHECK("C30:matrix", b == a, "assignment after a failure;" << g_tr); } } break; }
    case 1: { int n = 1 + s.size(60); std::vector<long long> v(n, 3); faulty(s, "segtree", [&] { SegmentTree<long long> t(v); t.addInterval(0, n - 1, 2); t.querySum(0, n - 1); }); break; }
    case 2: { Trie a; a.insert("abc"); a.insert("abd"); Trie b(a);
      for (int i = 0; i < 6; ++i) { std::string w = s.str(8, "abcd"); switch (s.below(5)) { case 0: faulty(s, "trie-remove", [&] { b.remove(s.chance(1, 2) ? "abc" : w); }); break; case 1: faulty(s, "trie-walk", [&] { for (auto x : b) (void)x; }); break; case 2: faulty(s, "trie-copy", [&] { Trie t(a); t.insert(w); b = t; }); break; default: faulty(s, "trie", [&] { b.insert(w); }); }
        VF_CHECK("C30:trie", a.contain("abc") && a.contain("abd") && a.size() == 2, "an uninvolved trie changed;" << g_tr); if (g_fired) b = a; } break; }
    case 11: { std::vector<std::unique_ptr<Node>> nd; int n = 2 + s.size(20); for (int i = 0; i < n; ++i) nd.emplace_back(new Node(i)); Tree t; t.setRoot(nd[0].get()); for (int i = 1; i < n; ++i) if (faulty(s, "tree", [&] { t.addNode(nd[i].get(), nd[s.below(i)].get()); })) break; break; }
    case 12: case 13: { int a = 1 + (int)s.below(60); double p = 0.3; Random gen(5); auto run = [&](int which) { switch (which) { case 0: { BinomialDistribution d(a, p); d.next(); break; } case 1: { BinomialDistribution d(gen, a, p); d.next(); break; } case 2: { PoissonDistribution d(3.5); d.next(); break; } case 3: { NormalDistribution d(0, 1); d.next(); break; } case 4: { GammaDistribution d(2.5, 1); d.next(); break; } case 5: { StudentTDistribution d(3); d.next(); break; } case 6: { ChiSquaredDistribution d(3); d.next(); break; } case 7: { NegativeBinomialDistribution d(3, p); d.next(); break; } case 8: { UniformIntDistribution d(1, 5); d.next(); break; } case 9: { GeometricDistribution d(p); d.next(); break; } default: { ExponentialDistribution d(2); d.next(); } } };
      int which = (int)s.below(11); faulty(s, "sampler", [&] { run(which); }); run(which); break; }
    case 14: { std::vector<El> v; for (int i = 0; i < 5; ++i) v.push_back(El(i)); faulty(s, "map", [&] { auto z = mapAll(v, [](El& e) { return El(e.v + 1); }); }); VF_EQ("C30:map", v.size(), 5u, g_tr); break; }
    case 15: faulty(s, "binomial", [&] { binomial<long long>(20, 7); }); VF_EQ("C30:binomial", binomial<long long>(20, 7), 77520ll, g_tr); break;
    case 16: faulty(s, "cast", [&] { std::string q = stringCast<std::string>(std::string(40, 'x')); int z = stringCast<int>("12"); (void)z; }); break;
    case 3: { Vertex a(1), b(2); for (int i = 0; i < 6; ++i) { size_t oa = a.outEdges.size(); faulty(s, "edge", [&] { a.addEdge(b, i); }); VF_CHECK("C30:vertex", a.outEdges.size() >= oa && a.outEdges.size() <= oa + 1, g_tr); for (auto* e : b.inEdges) VF_CHECK("C30:vertex", e->getTo() == &b && e->getFrom() == &a, "edge list holds a dead edge;" << g_tr); } break; }
    case 4: faulty(s, "b64", [&] { base64Decode(base64Encode(txt)); }); break;
    case 5: faulty(s, "url", [&] { urlDecode(urlEncode(txt)); }); break;
    case 6: faulty(s, "edit", [&] { editDistance(txt, txt2); }); break;
    case 7: faulty(s, "kmp", [&] { kmpSearch(txt, txt2); }); break;
    case 8: { std::vector<El> v(5, El(1)), l(3, El(2)); faulty(s, "zip", [&] { auto z = zip(v, l); }); VF_EQ("C30:zip", v.size(), 5u, g_tr); VF_EQ("C30:zip", l.size(), 3u, g_tr); break; }
    case 9: { std::vector<El> v; for (int i = 0; i < 5; ++i) v.push_back(El(i)); faulty(s, "filter", [&] { auto z = filterContainer(v, [](const El& e) { return e.v % 2 == 0; }); }); VF_EQ("C30:filter", v.size(), 5u, g_tr); break; }
    default: { Matrix<Fraction> a(2, 3), b(2, 3); faulty(s, "mf", [&] { b = a + b; }); b = a; VF_CHECK("C30:matrix", a == b, g_tr); }
  }
}
}  // namespace

VF_HARNESS2(C30, false, nullptr) {
  long before = El::live(); g_tr.clear(); g_armed = false;
  switch (s.below(12)) {
    case 0: seq<Vector<El>>(s, "C30:vector"); break;
    case 1: seq<List<El>>(s, "C30:list"); break;
    case 2: fifo<Queue<El>>(s, "C30:queue"); break;
    case 3: fifo<Stack<El>>(s, "C30:stack"); break;
    case 4: assoc<Map<El, El>>(s, "C30:map", [](Map<El, El>& c, const El& a, const El& b) { c.set(a, b); }, [](Map<El, El>& c, const El& a) { c.erase(a); }); break;
    case 5: assoc<MultiMap<El, El>>(s, "C30:multimap", [](MultiMap<El, El>& c, const El& a, const El& b) { std::multimap<El, El> t = c.toStlMultimap(); t.insert({a, b}); MultiMap<El, El> u(t); c = u; }, [](MultiMap<El, El>& c, const El& a) { c.erase(a); }); break;
    case 6: assoc<Set<El>>(s, "C30:set", [](Set<El>& c, const El& a, const El&) { c.insert(a); }, [](Set<El>& c, const El& a) { c.erase(a); }); break;
    case 7: assoc<MultiSet<El>>(s, "C30:multiset", [](MultiSet<El>& c, const El& a, const El&) { c.insert(a); }, [](MultiSet<El>& c, const El& a) { if (c.contains(a)) c.erase(a); }); break;
    case 8: json(s); break;
    default: misc(s);
  }
  VF_EQ("C30:element-lifetime", El::live(), before, "element constructions and destructions do not balance;" << g_tr);
  vf::sample([&] { return g_tr; });
}
