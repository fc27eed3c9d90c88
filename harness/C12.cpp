// Substring search and edit distance against naive references.
#include "algorithm.h"
#include "vf.h"
#include <functional>
namespace {
int refFind(const std::string& b, const std::string& p, size_t start) {
  if (start > b.size()) return -1;
  for (size_t i = start; i + p.size() <= b.size(); ++i) { size_t k = 0; while (k < p.size() && b[i + k] == p[k]) ++k; if (k == p.size()) return (int)i; }
  return -1;
}
int refEdit(const std::string& a, const std::string& b) {
  std::vector<int> prev(b.size() + 1), cur(b.size() + 1);
  for (size_t j = 0; j <= b.size(); ++j) prev[j] = (int)j;
  for (size_t i = 1; i <= a.size(); ++i) { cur[0] = (int)i; for (size_t j = 1; j <= b.size(); ++j) { int x = prev[j] + 1; if (cur[j - 1] + 1 < x) x = cur[j - 1] + 1; int y = prev[j - 1] + (a[i - 1] != b[j - 1]); cur[j] = y < x ? y : x; } std::swap(prev, cur); }
  return prev[b.size()];
}
std::string rep(vf::Src& s, int max) {  // self-similar strings
  static const std::string z("\0a\xff", 3); std::string u = s.str(4, s.chance(1, 8) ? z : std::string("ab")); if (u.empty()) u = "a"; std::string r; int n = s.size(max);
  while ((int)r.size() < n) { r += u; if (s.chance(1, 6)) r += (char)('a' + s.below(3)); } r.resize(n); return r;
}
std::string fib(int k) { std::string a = "b", b = "a"; for (int i = 0; i < k; ++i) { std::string c = b + a; a = b; b = c; } return b; }
std::string gen(vf::Src& s, int max) {
  switch (s.below(6)) { case 0: return s.text(max); case 1: case 2: return rep(s, max); case 3: return s.str(max, "ab"); case 4: return fib((int)s.below(10)).substr(0, max); default: return s.str(max, "abc"); }
}
void search(vf::Src& s) {
  std::string b = gen(s, s.chance(1, 20) ? 2000 : 120), p;
  if (s.below(400) == 399) {  // long text: few mismatches would be quadratic for the reference, so the pattern carries a rare letter
    std::string u = gen(s, 60); if (u.empty()) u = "ab"; int n = (int)s.uni(2000, s.chance(1, 3) ? 140000 : 20000); b.clear(); while ((int)b.size() < n) { b += u; if (b.size() % 97 == 0) b += 'q'; } size_t i = s.below(b.size()); b.insert(i, "zy"); size_t back = s.below(std::min<size_t>(i, s.chance(1, 2) ? 40000 : 300) + 1); p = b.substr(i, 2 + s.below(300)); if (s.chance(1, 2)) p = b.substr(i - back, back + 2); if (s.chance(1, 4)) p[p.size() - 1] = 'x';
    size_t w0 = b.find(p); int w = w0 == std::string::npos ? -1 : (int)w0, g = cuhksz::kmpSearch(b, p); VF_CHECK("C12:search", g == w, "kmpSearch(text of " << b.size() << " characters, pattern of " << p.size() << ") is " << g << ", expected " << w); g = cuhksz::kmpSearch(b, p, i); w0 = b.find(p, i); w = w0 == std::string::npos ? -1 : (int)w0; VF_CHECK("C12:search", g == w, "kmpSearch(text of " << b.size() << " characters, pattern of " << p.size() << ", " << i << ") is " << g << ", expected " << w);
    vf::note("long searches"); vf::sig(u); vf::sig((uint64_t)n * 1000003 + i); vf::sig(p); vf::nontrivial(); return;
  }
  switch (s.below(5)) {
    case 0: p = gen(s, 20); break;
    case 1: case 2: if (!b.empty()) { size_t i = s.below(b.size()); p = b.substr(i, s.below(b.size() - i + 1)); } break;
    case 3: if (!b.empty()) { size_t i = s.below(b.size()); p = b.substr(i, 1 + s.below(24)); p[s.below(p.size())] = (char)('a' + s.below(3)); } break;
    default: p = b + (s.chance(1, 2) ? "" : "a");
  }
  size_t start = (size_t)s.range(0, (long long)b.size() + 3); if (s.chance(1, 2)) start = 0; if (s.chance(1, 20)) start = s.pick(std::vector<size_t>{(size_t)-1, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, 0x7fffffff});
  int w = refFind(b, p, start); int g = start == 0 && s.chance(1, 2) ? cuhksz::kmpSearch(b, p) : cuhksz::kmpSearch(b, p, start);
  VF_CHECK("C12:search", g == w, "kmpSearch(" << vf::quote(b) << ", " << vf::quote(p) << ", " << (unsigned long long)start << ") is " << g << ", expected " << w);
  // all occurrences by repeated search
  if (b.size() <= 200) { int from = 0, cnt = 0; while (true) { int a = cuhksz::kmpSearch(b, p, from), c = refFind(b, p, from); VF_CHECK("C12:search", a == c, "kmpSearch(" << vf::quote(b) << ", " << vf::quote(p) << ", " << from << ") is " << a << ", expected " << c); if (a < 0) break; from = a + 1; ++cnt; } vf::note("occurrences found", cnt); }
  vf::note("searches"); vf::note(w >= 0 ? "searches that find" : "searches that find nothing"); vf::sig(b); vf::sig(p); vf::sig(start); if (!p.empty() && !b.empty()) vf::nontrivial(); vf::sample([&] { return "kmpSearch(" + vf::quote(b) + ", " + vf::quote(p) + ", " + std::to_string(start) + ") = " + std::to_string(g); });
}
std::string edit(vf::Src& s, std::string a, int k) { for (int i = 0; i < k; ++i) switch (s.below(3)) { case 0: if (!a.empty()) a.erase(s.below(a.size()), 1); break; case 1: a.insert(s.below(a.size() + 1), 1, (char)('a' + s.below(3))); break; default: if (!a.empty()) a[s.below(a.size())] = (char)s.byte(); } return a; }
void distance(vf::Src& s) {
  std::string a = gen(s, s.chance(1, 30) ? 300 : 40), b; int k = -1; if (s.below(600) == 599 && !a.empty()) { std::string u = a; int n = (int)s.uni(300, 1300); while ((int)a.size() < n) a += u; } switch (s.below(5)) { case 0: b = gen(s, 40); break; case 1: b = a; k = 0; break; case 2: b = std::string(a.rbegin(), a.rend()); break; default: k = (int)s.below(6); b = edit(s, a, k); }
  int w = refEdit(a, b), g = cuhksz::editDistance(a, b);
  VF_CHECK("C12:distance", g == w, "editDistance(" << vf::quote(a) << ", " << vf::quote(b) << ") is " << g << ", expected " << w);
  int r = cuhksz::editDistance(b, a); VF_CHECK("C12:distance", r == w, "editDistance(" << vf::quote(b) << ", " << vf::quote(a) << ") is " << r << ", expected " << w);
  vf::note("distances"); vf::sig(a); vf::sig(b); if (a != b) vf::nontrivial(); vf::sample([&] { return "editDistance(" + vf::quote(a) + ", " + vf::quote(b) + ") = " + std::to_string(g); });
}
}  // namespace
// All short words completely.
static void sweep() {
  std::vector<std::string> W2, W3; std::function<void(std::string, int, int, std::vector<std::string>&)> all = [&](std::string p, int n, int k, std::vector<std::string>& o) { o.push_back(p); if (n) for (int c = 0; c < k; ++c) all(p + (char)('a' + c), n - 1, k, o); };
  all("", 9, 2, W2); for (auto& b : W2) for (auto& p : W2) if (p.size() <= 5) for (size_t st = 0; st <= b.size() + 1; st += 1 + (b.size() > 7)) { int w = refFind(b, p, st), g = cuhksz::kmpSearch(b, p, st); if (g != w) VF_CHECK("C12:search", false, "kmpSearch(" << b << ", " << p << ", " << st << ") is " << g << ", expected " << w); } vf::note("words of up to 9 letters searched", W2.size());
  all("", 4, 3, W3); for (auto& a : W3) for (auto& b : W3) { int w = refEdit(a, b), g = cuhksz::editDistance(a, b); VF_CHECK("C12:distance", g == w, "editDistance(" << a << ", " << b << ") is " << g << ", expected " << w); }
  for (auto& a : W2) if (a.size() <= 6) for (auto& b : W2) if (b.size() <= 6) { int w = refEdit(a, b), g = cuhksz::editDistance(a, b); VF_CHECK("C12:distance", g == w, "editDistance(" << a << ", " << b << ") is " << g << ", expected " << w); } vf::note("pairs of short words compared", W3.size() * W3.size());
}
VF_HARNESS2(C12, true, sweep) { if (s.chance(3, 5)) search(s); else distance(s); }
