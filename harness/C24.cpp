// Trie: a set of words with ordered iteration; tries with different alphabets are independent.
#include "string_utils/Trie.h"
#include "vf.h"
#include <memory>
#include <set>
namespace {
int upC(char c) { if (c == '\001') return 1; return c - 'A' + 2; } char upI(int n) { return n == 1 ? '\001' : (char)(n - 2 + 'A'); }
int digC(char c) { if (c == '\001') return 1; return '9' - c + 2; } char digI(int n) { return n == 1 ? '\001' : (char)('9' - (n - 2)); }  // descending order
int wideC(char c) { if (c == '\001') return 1; return c - 32 + 2; } char wideI(int n) { return n == 1 ? '\001' : (char)(n - 2 + 32); }  // 95 printable characters
int allC(char c) { return (unsigned char)c; } char allI(int n) { return (char)n; }  // every non-zero byte
int nulC(char c) { return c ? (unsigned char)c : 256; } char nulI(int n) { return n == 256 ? 0 : (char)n; }  // every byte, zero included, with the largest code
int lowC(char c) { return c == '\001' ? 1 : c - 'a' + 2; }
struct Kind { int (*c)(char); std::string alpha; const char* name; };
const Kind& kind(int k) {
  static const Kind* K = [] { Kind* q = new Kind[6]; q[0] = {lowC, "abcdefghijklmnopqrstuvwxyz", "default"}; q[1] = {upC, "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "upper"}; q[2] = {digC, "0123456789", "digits, descending"}; std::string w; for (char c = 32; c < 127; ++c) w += c; q[3] = {wideC, w, "printable"}; std::string a; for (int c = 2; c < 256; ++c) a += (char)c; q[4] = {allC, a, "bytes"}; q[5] = {nulC, a + std::string(1, 0), "bytes with zero"}; return q; }();
  return K[k];
}
struct T { std::unique_ptr<cuhksz::Trie> t; int k; std::vector<std::string> pool; std::set<std::vector<int>> model; std::string alpha; };
cuhksz::Trie* fresh(int k) { switch (k) { case 0: return new cuhksz::Trie; case 1: return new cuhksz::Trie(upC, upI); case 2: return new cuhksz::Trie(digC, digI); case 3: return new cuhksz::Trie(wideC, wideI); case 4: return new cuhksz::Trie(allC, allI); default: return new cuhksz::Trie(nulC, nulI); } }
std::vector<int> code(int k, const std::string& w) { std::vector<int> r; for (char c : w) r.push_back(kind(k).c(c)); return r; }
std::string word(vf::Src& s, T& t) {
  const std::string& a = t.alpha;
  if (!t.pool.empty() && s.chance(2, 3)) { std::string w = s.pick(t.pool); switch (s.below(6)) { case 0: return w + s.str(3, a); case 1: return w.substr(0, s.below(w.size() + 1)); case 2: { std::string v = s.pick(t.pool); return w.substr(0, s.below(w.size() + 1)) + v.substr(s.below(v.size() + 1)); } case 3: if (!w.empty()) { w[s.below(w.size())] = a[s.below(a.size())]; } return w.substr(0, 300); default: return w; } }
  if (s.below(400) == 399) { std::string u = s.str(9, a), w; if (u.empty()) u = a.substr(0, 1); int n = (int)s.uni(200, 1500); while ((int)w.size() < n) w += u; return w; } return s.str(s.chance(1, 12) ? 120 : s.chance(1, 3) ? 3 : 9, a);
}
void walk(T& t, const std::string& log) {
  auto it = t.t->begin(), e = t.t->end(); size_t n = 0; auto keep = it; size_t kept = 0;
  for (auto m = t.model.begin(); m != t.model.end(); ++m, ++n) { VF_CHECK("C24:iterate", it != e && !(it == e), "iteration ends after " << n << " of " << t.model.size() << " words" << log); std::string w = *it; VF_CHECK("C24:iterate", code(t.k, w) == *m, "word " << n << " of the iteration is " << vf::quote(w) << log); if (n == t.model.size() / 2) { keep = it; kept = n; } ++it; }
  VF_CHECK("C24:iterate", it == e && !(it != e), "iteration goes on after " << n << " words: " << vf::quote(*it) << log);
  if (n) { auto x = t.t->begin(), y = t.t->begin(); VF_CHECK("C24:iterate", x == y && !(x != y), "two iterators at the first of " << n << " words differ" << log); auto z = x; ++z; VF_CHECK("C24:iterate", !(z == x) && z != x && x == y && *x == *y, "an advanced copy equals the iterator it was copied from" << log); ++y; VF_CHECK("C24:iterate", z == y && !(z != y), "two iterators advanced once differ" << log); }
  if (n) { size_t c = kept; for (; keep != e; ++keep) ++c; VF_CHECK("C24:iterate", c == n, "a copied iterator visits " << c - kept << " words, expected " << n - kept << log); } vf::note("iterations compared"); vf::note("words visited", n);
}
// Past the range of a short counter: tens of thousands of words, and of letters in one word.
void once() {
  for (int k : {0, 3}) {  // 34000 words
    const std::string& al = kind(k).alpha; std::unique_ptr<cuhksz::Trie> t(fresh(k)); std::set<std::vector<int>> m; const int N = k ? 2000 : 34000; auto w = [&](int i) { std::string r; for (int x = i + 1; x; x /= 20) r += al[x % 20]; return r; };
    for (int i = 0; i < N; ++i) { t->insert(w(i)); m.insert(code(k, w(i))); } VF_CHECK("C24:size", t->size() == (int)m.size(), "size() is " << t->size() << " after " << m.size() << " words");
    T q; q.t.swap(t); q.k = k; q.model = m; walk(q, " in a trie of " + std::to_string(m.size()) + " words"); for (int i = 0; i < N; ++i) VF_CHECK("C24:contain", q.t->contain(w(i)), "word " << vf::quote(w(i)) << " of " << N << " is lost");
    for (int i = 0; i < N; i += 2) { q.t->remove(w(i)); q.model.erase(code(k, w(i))); } for (int i = 0; i < N; ++i) VF_CHECK("C24:contain", q.t->contain(w(i)) == (q.model.count(code(k, w(i))) != 0), "word " << vf::quote(w(i)) << " after removing every other word"); VF_CHECK("C24:size", q.t->size() == (int)q.model.size(), "size() is " << q.t->size() << " after removals, expected " << q.model.size()); walk(q, " after removing half of the words");
  }
  for (int k : {0, 1, 3, 4, 5}) for (int turn = 0; turn < 2; ++turn) {  // wide nodes: words of up to three letters over the whole alphabet, in any order
    const std::string& al = kind(k).alpha; T q; q.k = k; q.t.reset(fresh(k)); uint64_t x = vf::seed() * 977 + k * 31 + turn; auto rnd = [&](size_t n) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (size_t)((x >> 33) % n); };
    std::vector<std::string> ws; const int N = k < 2 ? 5000 : 1200; while ((int)ws.size() < N) { std::string w; int len = 1 + (int)rnd(turn ? 2 : 3); size_t wide = turn ? al.size() : 2 + rnd(al.size() - 1); for (int i = 0; i < len; ++i) w += al[i + 1 < len && k > 1 ? rnd(12) : rnd(wide)]; ws.push_back(w); }
    for (size_t i = 0; i < ws.size(); ++i) { std::vector<int> c = code(k, ws[i]); if (rnd(5) == 4) { const std::string& o = ws[rnd(i + 1)]; q.t->remove(o); q.model.erase(code(k, o)); } q.t->insert(ws[i]); q.model.insert(c); VF_CHECK("C24:contain", q.t->contain(ws[i]), "word " << vf::quote(ws[i]) << " is missing after its insertion into a trie with wide nodes"); if (i % 40 == 39) { const std::string& o = ws[rnd(i + 1)]; VF_CHECK("C24:contain", q.t->contain(o) == (q.model.count(code(k, o)) != 0), "contain(" << vf::quote(o) << ") in a trie with wide nodes"); } }
    VF_CHECK("C24:size", q.t->size() == (int)q.model.size(), "size() is " << q.t->size() << ", expected " << q.model.size() << " in a trie with wide nodes"); for (auto& w : ws) VF_CHECK("C24:contain", q.t->contain(w) == (q.model.count(code(k, w)) != 0), "contain(" << vf::quote(w) << ") in a trie with wide nodes at the end"); walk(q, " in a trie with wide nodes"); vf::note("tries with wide nodes"); vf::progress();
  }
  T q; q.k = 0; q.t.reset(fresh(0)); std::string p; for (int i = 0; i < 33500; ++i) p += (char)('a' + i * 7 % 26); std::vector<std::string> ws = {p, p + "a", p + "bc", p.substr(0, 33000), p.substr(0, 140) + "x", p.substr(0, 300), "q"};
  for (auto& w : ws) { q.t->insert(w); q.model.insert(code(0, w)); VF_CHECK("C24:size", q.t->size() == (int)q.model.size(), "size with words of " << w.size() << " letters"); } for (auto& w : ws) VF_CHECK("C24:contain", q.t->contain(w), "a word of " << w.size() << " letters is lost"); walk(q, " in a trie with words of 33500 letters"); VF_CHECK("C24:contain", !q.t->contain(p.substr(0, 33400)) && !q.t->contain(p + "b"), "a word that was not inserted is found");
  q.t->remove(p); q.model.erase(code(0, p)); for (auto& w : ws) VF_CHECK("C24:contain", q.t->contain(w) == (w != p), "a word of " << w.size() << " letters after removing one of " << p.size()); walk(q, " after removing a word of 33500 letters"); vf::note("large tries");
}
}  // namespace
VF_HARNESS2(C24, true, once) {
  int nt = 1 + (int)s.below(3), ops = 1 + s.size(s.chance(1, 15) ? 500 : 90), done = 0; std::vector<T> ts(nt); std::string log;
  for (auto& t : ts) { t.k = s.chance(1, 2) ? 0 : (int)s.below(6); t.t.reset(fresh(t.k)); const std::string& a = kind(t.k).alpha; int w = s.chance(1, 3) ? 2 : s.chance(1, 2) ? 4 : (int)a.size(); if (w >= (int)a.size()) t.alpha = a; else { size_t off = s.chance(1, 3) ? a.size() - w : s.below(a.size() - w + 1); t.alpha = a.substr(off, w); } log += std::string(" trie(") + kind(t.k).name + ")"; }
  if (s.below(200) == 199) {  // thousands of words
    T& t = ts[0]; int n = (int)s.uni(300, 2500), base = (int)t.alpha.size(); if (base > 9) base = 9; if (base < 2) base = 2; for (int i = 0; i < n; ++i) { std::string w; for (int x = (int)((long long)i * 7919 % n) + 1; x && (int)t.alpha.size() > 1; x /= base) w += t.alpha[x % base]; t.t->insert(w); t.model.insert(code(t.k, w)); if (i % 50 == 0 && t.pool.size() < 60) t.pool.push_back(w); if (i % 3 == 2) { t.t->remove(w); t.model.erase(code(t.k, w)); } }
    log += " bulk " + std::to_string(n); VF_CHECK("C24:size", t.t->size() == (int)t.model.size(), "size() is " << t.t->size() << ", expected " << t.model.size() << log); walk(t, log); vf::note("large tries"); if (ops > 60) ops = 60;
  }
  for (int st = 0; st < ops && !s.exhausted(); ++st) {
    int q = (int)s.below(nt), op = (int)s.below(10); T& t = ts[q]; std::string w = word(s, t); std::vector<int> c = code(t.k, w); std::string tag = std::to_string(q) + ":" + vf::quote(w); vf::sig((uint64_t)op); vf::sig(w);
    if (op < 5) { t.t->insert(w); t.model.insert(c); if (t.pool.size() < 60) t.pool.push_back(w); else t.pool[s.below(60)] = w; ++done; log += " +" + tag; vf::note("insertions"); }
    else if (op < 7) { bool had = t.model.erase(c); t.t->remove(w); log += had ? " -" + tag : " -absent " + tag; ++done; vf::note(had ? "removals" : "removals of absent words"); }
    else if (op < 9) { bool g = t.t->contain(w); VF_CHECK("C24:contain", g == (t.model.count(c) != 0), "contain(" << tag << ") is " << g << " after" << log); vf::note("lookups"); }
    else if (s.chance(1, 3)) walk(t, " after" + log);
    else if (s.chance(1, 4)) { std::unique_ptr<cuhksz::Trie> cp(new cuhksz::Trie(*t.t)); t.t->insert(w + t.alpha[0]); t.t.swap(cp); log += " copy"; }
    if (log.size() > 2500) log = "..." + log.substr(log.size() - 1800);
    for (auto& u : ts) VF_CHECK("C24:size", u.t->size() == (int)u.model.size(), "size() is " << u.t->size() << ", expected " << u.model.size() << " after" << log);
  }
  for (auto& t : ts) { for (auto& w : t.pool) VF_CHECK("C24:contain", t.t->contain(w) == (t.model.count(code(t.k, w)) != 0), "contain(" << vf::quote(w) << ") is wrong at the end of" << log); walk(t, " at the end of" + log); }
  if (s.chance(1, 3)) { T& t = ts[0]; for (auto& w : t.pool) { t.t->remove(w); t.model.erase(code(t.k, w)); } walk(t, " after removing the pool in" + log); for (auto& w : t.pool) if (s.chance(1, 2)) { t.t->insert(w); t.model.insert(code(t.k, w)); } walk(t, " after inserting the pool again in" + log); VF_CHECK("C24:size", t.t->size() == (int)t.model.size(), "size after refill in" << log); }
  if (done > 1) vf::nontrivial(); vf::sample([&] { return log; });
}
