// Queue is FIFO and Stack is LIFO: exactly-once, in-order delivery for any history.
#include <deque>
#include <queue>
#include <stack>
#include "containers/Queue.h"
#include "containers/Stack.h"
#include "elems.h"
namespace {
using namespace cuhksz;
template <class C, class M> void rel(const char* key, C& a, const M& ma, const C& b, const M& mb, const std::string& tr) {
  VF_EQ(key, (a == b), (ma == mb), tr); VF_EQ(key, (a != b), (ma != mb), tr);
  VF_EQ(key, (a < b), (ma < mb), tr); VF_EQ(key, (a <= b), (ma <= mb), tr);
  VF_EQ(key, (a > b), (ma > mb), tr); VF_EQ(key, (a >= b), (ma >= mb), tr);
  vf::note("relational comparisons", 6);
}
template <class T> void q_(vf::Src& s) {
  const char* key = "C03:queue"; const int K = 3; int spread = s.chance(1, 2) ? (int)s.uni(1, 3) : 0;
  std::vector<Queue<T>> c; c.reserve(8); std::vector<std::deque<T>> m(K); std::string tr = "Queue history:";
  for (int k = 0; k < K; ++k) {
    if (s.chance(1, 2)) c.emplace_back();
    else { std::queue<T> q; int n = s.size(30); for (int i = 0; i < n; ++i) { T v = Mk<T>::go(s, spread); q.push(v); m[k].push_back(v); } c.emplace_back(q); }
  }
  // phases bias the mix towards growing, draining or steady state
  int phases = 1 + (int)s.below(4); int total = 0, bulk = s.chance(1, 20) ? 2 : 0;
  for (int p = 0; p < phases; ++p) {
    unsigned in = (unsigned)s.uni(1, 7); int ops = s.chance(1, 2) ? s.size(50) : (int)s.uni(10, s.chance(1, 12) ? 1500 : 100);
    for (int o = 0; o < ops; ++o, ++total) {
      int k = s.chance(2, 3) ? 0 : (int)s.below(K), j = (int)s.below(K); Queue<T>& x = c[k]; const Queue<T>& cx = x; auto& y = m[k]; std::string d; uint64_t op = s.below(16);
      if (op < 12) {
        if (s.chance(in, 8)) { T v = Mk<T>::go(s, spread); x.enqueue(v); y.push_back(v); d = "enq"; vf::note("enqueue events"); }
        else if (!y.empty()) { T g = x.dequeue(); T w = y.front(); y.pop_front(); VF_CHECK(key, same(g, w), "dequeue() returned " << g << ", expected " << w << "; " << tr); d = "deq"; vf::note("dequeue events"); }
      } else if (op == 12) { x = c[j]; y = m[j]; d = "assign"; }
      else if (op == 13) { switch (s.below(5)) {
          case 4: if (bulk-- > 0) { int n = (int)s.uni(200, s.chance(1, 6) ? 70000 : 6000); T v = Mk<T>::go(s, spread), w = Mk<T>::go(s, spread); for (int i = 0; i < n; ++i) { const T& e = i % 7 == 3 || i % 11 == 5 ? v : w; x.enqueue(e); y.push_back(e); } d = "bulk"; vf::note("bulk fills"); if (s.chance(1, 3)) { x.clear(); y.clear(); d = "bulk-clear"; } } break;
          case 0: if (s.chance(1, 4)) { x.clear(); y.clear(); d = "clear"; } break;
          case 1: rel(key, x, y, c[j], m[j], tr); d = "compare"; if (!y.empty()) { Queue<T> t(x); auto u = y; switch (s.below(4)) { case 0: t.dequeue(); u.pop_front(); break; case 1: { T v = Mk<T>::go(s, spread); t.last() = v; u.back() = v; break; } case 2: { T v = Mk<T>::go(s, spread); t.enqueue(v); u.push_back(v); break; } default:; } rel(key, x, y, t, u, tr + " near copy"); rel(key, t, u, x, y, tr + " near copy"); } break;
          case 2: { std::queue<T> a = x.toStlQueue(), b = x; VF_EQ(key, a.size(), y.size(), tr); VF_EQ(key, b.size(), y.size(), tr); Queue<T> r(a); for (auto& w : y) { T g = r.dequeue(); VF_CHECK(key, same(g, w), "element of converted queue; " << tr); VF_CHECK(key, same(b.front(), w), "element of implicit conversion; " << tr); b.pop(); } VF_EQ(key, r.isEmpty(), true, tr); d = "stl"; break; }
          default: { Queue<T> t(x); std::deque<T> old = y; if (!y.empty()) { x.dequeue(); y.pop_front(); } for (auto& w : old) { T g = t.dequeue(); VF_CHECK(key, same(g, w), "element of copy is " << g << ", expected " << w << "; " << tr); } VF_EQ(key, t.size(), 0, tr); d = "copy-drain"; } } }
      else if (!y.empty()) { if (op == 14) { T v = Mk<T>::go(s, spread); if (s.chance(1, 2)) { x.first() = v; y.front() = v; } else { x.last() = v; y.back() = v; } d = "write-end"; } else { x.enqueue(x.first()); y.push_back(T(y.front())); d = "enq-own"; } }
      VF_EQ(key, cx.size(), (int)y.size(), tr); VF_EQ(key, x.isEmpty(), y.empty(), tr);
      if (!y.empty()) { VF_CHECK(key, same(x.first(), y.front()) && same(cx.first(), y.front()), "first() is " << x.first() << ", expected " << y.front() << "; " << tr); VF_CHECK(key, same(x.last(), y.back()) && same(cx.last(), y.back()), "last() is " << x.last() << ", expected " << y.back() << "; " << tr); }
      vf::sig(op * 1000003 + y.size()); if (tr.size() < 500) tr += " " + vf::show(k) + ":" + d;
    }
  }
  for (int k = 0; k < K; ++k) { for (auto& w : m[k]) { T g = c[k].dequeue(); VF_CHECK(key, same(g, w), "final drain returned " << g << ", expected " << w << "; " << tr); } VF_EQ(key, c[k].size(), 0, tr); VF_EQ(key, c[k].isEmpty(), true, tr); }
  if (total > 2) vf::nontrivial();
  vf::sample([&] { return tr; });
}
template <class T> void st_(vf::Src& s) {
  const char* key = "C03:stack"; const int K = 3; int spread = s.chance(1, 2) ? (int)s.uni(1, 3) : 0;
  std::vector<Stack<T>> c; c.reserve(8); std::vector<std::deque<T>> m(K); std::string tr = "Stack history:";
  for (int k = 0; k < K; ++k) {
    if (s.chance(1, 2)) c.emplace_back();
    else { std::stack<T> q; int n = s.size(30); for (int i = 0; i < n; ++i) { T v = Mk<T>::go(s, spread); q.push(v); m[k].push_back(v); } c.emplace_back(q); }
  }
  int phases = 1 + (int)s.below(4); int total = 0, bulk = s.chance(1, 20) ? 2 : 0;
  for (int p = 0; p < phases; ++p) {
    unsigned in = (unsigned)s.uni(1, 7); int ops = s.chance(1, 2) ? s.size(50) : (int)s.uni(10, s.chance(1, 12) ? 1500 : 100);
    for (int o = 0; o < ops; ++o, ++total) {
      int k = s.chance(2, 3) ? 0 : (int)s.below(K), j = (int)s.below(K); Stack<T>& x = c[k]; const Stack<T>& cx = x; auto& y = m[k]; std::string d; uint64_t op = s.below(16);
      if (op < 12) {
        if (s.chance(in, 8)) { T v = Mk<T>::go(s, spread); x.push(v); y.push_back(v); d = "push"; vf::note("push events"); }
        else if (!y.empty()) { T g = x.pop(); T w = y.back(); y.pop_back(); VF_CHECK(key, same(g, w), "pop() returned " << g << ", expected " << w << "; " << tr); d = "pop"; vf::note("pop events"); }
      } else if (op == 12) { x = c[j]; y = m[j]; d = "assign"; }
      else if (op == 13) { switch (s.below(5)) {
          case 4: if (bulk-- > 0) { int n = (int)s.uni(200, s.chance(1, 6) ? 70000 : 6000); T v = Mk<T>::go(s, spread), w = Mk<T>::go(s, spread); for (int i = 0; i < n; ++i) { const T& e = i % 7 == 3 || i % 11 == 5 ? v : w; x.push(e); y.push_back(e); } d = "bulk"; vf::note("bulk fills"); if (s.chance(1, 3)) { x.clear(); y.clear(); d = "bulk-clear"; } } break;
          case 0: if (s.chance(1, 4)) { x.clear(); y.clear(); d = "clear"; } break;
          case 1: rel(key, x, y, c[j], m[j], tr); d = "compare"; if (!y.empty()) { Stack<T> t(x); auto u = y; switch (s.below(4)) { case 0: t.pop(); u.pop_back(); break; case 1: { T v = Mk<T>::go(s, spread); t.top() = v; u.back() = v; break; } case 2: { T v = Mk<T>::go(s, spread); t.push(v); u.push_back(v); break; } default:; } rel(key, x, y, t, u, tr + " near copy"); rel(key, t, u, x, y, tr + " near copy"); } break;
          case 2: { std::stack<T> a = x.toStlStack(), b = x; VF_EQ(key, a.size(), y.size(), tr); VF_EQ(key, b.size(), y.size(), tr); Stack<T> r(a); for (auto w = y.rbegin(); w != y.rend(); ++w) { T g = r.pop(); VF_CHECK(key, same(g, *w), "element of converted stack; " << tr); VF_CHECK(key, same(b.top(), *w), "element of implicit conversion; " << tr); b.pop(); } VF_EQ(key, r.isEmpty(), true, tr); d = "stl"; break; }
          default: { Stack<T> t(x); std::deque<T> old = y; if (!y.empty()) { x.pop(); y.pop_back(); } for (auto w = old.rbegin(); w != old.rend(); ++w) { T g = t.pop(); VF_CHECK(key, same(g, *w), "element of copy is " << g << ", expected " << *w << "; " << tr); } VF_EQ(key, t.size(), 0, tr); d = "copy-drain"; } } }
      else if (!y.empty()) { if (op == 14) { T v = Mk<T>::go(s, spread); x.top() = v; y.back() = v; d = "write-top"; } else { x.push(x.top()); y.push_back(T(y.back())); d = "push-own"; } }
      VF_EQ(key, cx.size(), (int)y.size(), tr); VF_EQ(key, x.isEmpty(), y.empty(), tr);
      if (!y.empty()) VF_CHECK(key, same(x.top(), y.back()) && same(cx.top(), y.back()), "top() is " << x.top() << ", expected " << y.back() << "; " << tr);
      vf::sig(op * 1000003 + y.size()); if (tr.size() < 500) tr += " " + vf::show(k) + ":" + d;
    }
  }
  for (int k = 0; k < K; ++k) { for (auto w = m[k].rbegin(); w != m[k].rend(); ++w) { T g = c[k].pop(); VF_CHECK(key, same(g, *w), "final drain returned " << g << ", expected " << *w << "; " << tr); } VF_EQ(key, c[k].size(), 0, tr); VF_EQ(key, c[k].isEmpty(), true, tr); }
  if (total > 2) vf::nontrivial();
  vf::sample([&] { return tr; });
}
void large() {
  const char* key = "C03:large";
  for (int n : {257, 4097, 32769, 65537, 300000}) {
    Queue<int> q; Stack<int> st; for (int i = 0; i < n; ++i) { q.enqueue(i); st.push(i); }
    VF_CHECK(key, q.size() == n && st.size() == n && q.first() == 0 && q.last() == n - 1 && st.top() == n - 1, "large queue and stack of " << n);
    Queue<int> q2; q2 = q; Stack<int> s2; s2 = st; VF_CHECK(key, q2 == q && s2 == st && !(q < q2) && st <= s2, "copies of a large queue and stack differ");
    int front = 0, back = n; for (int r = 0; r < n; ++r) { VF_EQ(key, q.dequeue(), front, "large queue of " << n); ++front; if (r % 3 == 0) q.enqueue(back++); }
    for (; front < back; ++front) VF_EQ(key, q.dequeue(), front, "large queue of " << n << " drained"); VF_CHECK(key, q.isEmpty(), "drained queue is not empty");
    for (int i = n - 1; i >= 0; --i) VF_EQ(key, st.pop(), i, "large stack of " << n); VF_CHECK(key, st.isEmpty() && q2.size() == n && s2.size() == n, "emptying a queue and a stack changed their copies");
    q2.clear(); s2.clear(); VF_CHECK(key, q2.isEmpty() && s2.isEmpty() && q2.size() == 0 && s2.size() == 0, "clear() leaves elements of " << n); q2.enqueue(5); s2.push(6); VF_CHECK(key, q2.first() == 5 && q2.last() == 5 && s2.top() == 6, "use after clear()");
    vf::progress(); vf::note("large queues and stacks");
  }
}
}  // namespace
VF_HARNESS2(C03, true, large) {
  long before = Tok::live();
  switch (s.below(6)) {
    case 0: q_<int>(s); break; case 1: q_<std::string>(s); break; case 2: q_<Tok>(s); break;
    case 3: st_<int>(s); break; case 4: st_<std::string>(s); break; default: st_<Tok>(s);
  }
  VF_EQ("C03:element-lifetime", Tok::live(), before, "element constructions and destructions do not balance");
}
