// Tree: heights, ancestors, lowest common ancestor and distance against a parent array.
#include "graph/Tree.h"
#include "vf.h"
#include <memory>
// Two branches so deep that every power-of-two ancestor up to 2^17 is needed.
static void deep() {
  typedef cuhksz::Node N; const int L = 140000; std::vector<std::unique_ptr<N>> a, b; cuhksz::Tree t; std::unique_ptr<N> root(new N(0)); t.setRoot(root.get());
  for (int i = 1; i <= L; ++i) { a.emplace_back(new N(i, i)); t.addNode(a.back().get(), i == 1 ? root.get() : a[i - 2].get()); }
  for (int i = 1; i <= L; ++i) { b.emplace_back(new N(-i, i)); t.addNode(b.back().get(), i == 1 ? a[4].get() : b[i - 2].get()); }
  auto A = [&](int i) { return i ? a[i - 1].get() : root.get(); }; auto B = [&](int i) { return i ? b[i - 1].get() : A(5); };
  for (int x : {0, 1, 4, 5, 6, 1000, 65536, 65541, 131071, 131072, 131077, L}) for (int y : {0, 1, 2, 1000, 65535, 65536, 131071, 131072, L}) {
    N* w = A(y || x < 5 ? std::min(x, 5) : x > 5 ? 5 : x); N* g = t.LCA(A(x), B(y)); VF_CHECK("C22:lca", g == w, "LCA of node " << x << " of one branch and node " << y << " of another, which part at node 5, has id " << (g ? g->getID() : -1)); VF_CHECK("C22:lca", t.LCA(B(y), A(x)) == w, "LCA is not symmetric on deep branches");
    int d = x >= 5 ? x - 5 + y : y + 5 - x; VF_CHECK("C22:distance", t.getDistance(A(x), B(y)) == d, "distance " << t.getDistance(A(x), B(y)) << " on deep branches, expected " << d);
    if (y <= x) VF_CHECK("C22:ancestor", A(x)->getAncestor(y) == A(x - y), "ancestor " << y << " of a node of height " << x); vf::note("deep pairs compared"); }
  VF_CHECK("C22:node", A(L)->getHeight() == L && B(L)->getHeight() == L + 5 && A(5)->getDegree() == 2, "heights or degrees on deep branches");
}
VF_HARNESS2(C22, true, deep) {
  typedef cuhksz::Node N; int n = 1 + (s.chance(1, 5) ? s.size(400) : (int)s.below(30)); if (s.below(300) == 299) n = (int)s.uni(500, s.chance(1, 3) ? 70000 : 6000); int shape = (int)s.below(6); std::vector<std::unique_ptr<N>> own; std::vector<int> par(n, -1), dep(n, 0), val(n); std::vector<std::vector<int>> kids(n); cuhksz::Tree t; std::string log = "parents:";
  for (int i = 0; i < n; ++i) { val[i] = (int)s.range(-1000, 1000); bool dflt = s.chance(1, 4); if (dflt) val[i] = 0; own.emplace_back(dflt ? new N(i * 3 + 1) : new N(i * 3 + 1, val[i])); }
  t.setRoot(own[0].get()); vf::sig((uint64_t)n * 8 + shape);
  for (int i = 1; i < n; ++i) { int p; switch (shape) { case 0: p = i - 1; break; case 1: p = (i - 1) / 2; break; case 2: p = (int)s.below(i); break; case 3: p = i - 1 - (int)s.below(std::min(i, 3)); break; case 4: p = i == 1 ? 0 : i - 2; break; default: p = s.chance(9, 10) ? i - 1 : (int)s.below(i); }
    par[i] = p; dep[i] = dep[p] + 1; kids[p].push_back(i); t.addNode(own[i].get(), own[p].get()); if (log.size() < 400) log += " " + std::to_string(p); vf::sig((uint64_t)p);
    if (s.exhausted() && i > 40) { n = i + 1; break; } }
  if (n > 2) vf::nontrivial(); vf::sample([&] { return log; });
  auto at = [&](int i) { return own[i].get(); };
  VF_CHECK("C22:root", t.getRoot() == at(0), "getRoot() is another node");
  for (int i = 0; i < n; ++i) { N* x = at(i); VF_CHECK("C22:node", x->getHeight() == dep[i] && x->getFa() == (par[i] < 0 ? nullptr : at(par[i])) && x->getVal() == val[i] && x->getID() == i * 3 + 1 && x->getDegree() == (int)kids[i].size(), "node " << i << ": height " << x->getHeight() << " (expected " << dep[i] << "), degree " << x->getDegree() << " in " << log); std::vector<N*> sons = x->getSon(); for (size_t k = 0; k < kids[i].size(); ++k) VF_CHECK("C22:node", sons[k] == at(kids[i][k]), "son " << k << " of node " << i << " in " << log); }
  int Q = n < 12 ? n * n : 60; for (int q = 0; q < Q; ++q) {
    int x = n < 12 ? q / n : (int)s.below(n), y = n < 12 ? q % n : (int)s.below(n); int a = x, b = y; while (dep[a] > dep[b]) a = par[a]; while (dep[b] > dep[a]) b = par[b]; while (a != b) { a = par[a]; b = par[b]; } N* g = t.LCA(at(x), at(y)); VF_CHECK("C22:lca", g == at(a), "LCA(" << x << ", " << y << ") is " << (g ? std::to_string((g->getID() - 1) / 3) : "null") << ", expected " << a << " in " << log);
    int d = dep[x] + dep[y] - 2 * dep[a]; VF_CHECK("C22:distance", t.getDistance(at(x), at(y)) == d, "getDistance(" << x << ", " << y << ") is " << t.getDistance(at(x), at(y)) << ", expected " << d << " in " << log);
    int lv = (int)s.below(dep[x] + 1), w = x; if (n < 12) lv = dep[x] ? q % (dep[x] + 1) : 0; for (int k = 0; k < lv; ++k) w = par[w]; VF_CHECK("C22:ancestor", at(x)->getAncestor(lv) == at(w), "ancestor " << lv << " of " << x << " in " << log); vf::note("pairs compared"); }
}
