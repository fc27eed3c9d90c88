// BST: an ordered multiset of caller-owned nodes.
#include "graph/BST.h"
#include "vf.h"
#include <algorithm>
#include <memory>
namespace {
typedef cuhksz::BSTNode N;
struct Item { N* n; int key, val; };
}  // namespace
VF_HARNESS2(C21, true, nullptr) {
  int K = 1 + (s.chance(1, 6) ? s.size(200) : (int)s.below(14)); bool wide = s.below(150) == 149; if (wide) K = (int)s.uni(300, s.chance(1, 3) ? 9000 : 1500); int ops = 1 + s.size(s.chance(1, 20) ? 600 : 80), done = 0; int spread = s.chance(1, 3) ? 2 + (int)s.below(4) : s.chance(1, 4) ? 0 : 40; std::vector<std::unique_ptr<N>> own; std::vector<Item> all; std::vector<int> in;  // indices of nodes in the tree, in order
  std::vector<char> inside(K, 0); std::string log;
  for (int i = 0; i < K; ++i) { int key = spread ? (int)s.range(-spread, spread) : (int)s.range(-2147483647 - 1, 2147483647), val = (int)s.range(-1000, 1000); own.emplace_back(new N(key, val)); all.push_back({own.back().get(), key, val}); }
  std::unique_ptr<cuhksz::BST> t(new cuhksz::BST);
  auto audit = [&]() {
    // every node keeps its data; pre and suf thread exactly the members, in order of rank, each once
    std::vector<Item*> mem; for (int i = 0; i < K; ++i) { VF_CHECK("C21:data", all[i].n->getRank() == all[i].key && all[i].n->getVal() == all[i].val, "node data changed after " << log); if (inside[i]) mem.push_back(&all[i]); }
    if (mem.empty()) return; N* first = nullptr; int firsts = 0; for (Item* m : mem) if (!t->pre(m->n)) { first = m->n; ++firsts; } VF_CHECK("C21:order", firsts == 1, firsts << " nodes have no predecessor after " << log);
    std::vector<N*> seq; for (N* c = first; c; c = t->suf(c)) { VF_CHECK("C21:order", seq.empty() || seq.back()->getRank() <= c->getRank(), "successor of rank " << seq.back()->getRank() << " has rank " << c->getRank() << " after " << log); if (!seq.empty()) VF_CHECK("C21:order", t->pre(c) == seq.back(), "pre(suf(x)) is not x after " << log); seq.push_back(c); VF_CHECK("C21:order", seq.size() <= mem.size(), "more nodes than were inserted after " << log); }
    VF_CHECK("C21:members", seq.size() == mem.size(), "walking the tree meets " << seq.size() << " of " << mem.size() << " nodes after " << log); std::vector<N*> a(seq), b; for (Item* m : mem) b.push_back(m->n); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VF_CHECK("C21:members", a == b, "the tree holds other nodes than were inserted after " << log); vf::note("full walks");
  };
  if (wide) {  // thousands of nodes: ascending, descending or strided insertion, then the usual history
    int how = (int)s.below(4); std::vector<int> ord(K); for (int i = 0; i < K; ++i) ord[i] = i; auto by = [&](int a, int b) { return all[a].key < all[b].key; };
    if (how < 2) std::stable_sort(ord.begin(), ord.end(), by); if (how == 1) std::reverse(ord.begin(), ord.end()); if (how == 2) for (int i = K - 1; i > 0; --i) std::swap(ord[i], ord[(unsigned)i * 7919u % (unsigned)(i + 1)]);
    for (int i : ord) { t->insert(all[i].n); inside[i] = 1; } log += " +all " + std::to_string(K); audit(); if (ops > 60) ops = 60; vf::note("large trees");
  }
  for (int st = 0; st < ops && !s.exhausted(); ++st) {
    int i = (int)s.below(K), op = (int)s.below(8); vf::sig((uint64_t)op * 1000 + i);
    std::string nm = "#" + std::to_string(i) + "(" + std::to_string(all[i].key) + ")";
    switch (op) {
      case 0: case 1: case 2: if (inside[i]) break; t->insert(all[i].n); inside[i] = 1; ++done; log += " +" + nm; vf::note("insertions"); break;
      case 3: if (!inside[i]) break; t->erase(all[i].n); inside[i] = 0; ++done; log += " -" + nm; vf::note("removals"); break;
      case 4: case 5: { int key = s.chance(1, 2) ? all[i].key : (int)((unsigned)all[i].key + (unsigned)s.range(-3, 3)); bool have = false; for (int j = 0; j < K; ++j) have |= inside[j] && all[j].key == key; N* f = t->find(key); VF_CHECK("C21:find", (f != nullptr) == have, "find(" << key << ") is " << (f ? "a node" : "null") << " after " << log); if (f) { bool mine = false; for (int j = 0; j < K; ++j) mine |= all[j].n == f && inside[j] && all[j].key == key; VF_CHECK("C21:find", mine, "find(" << key << ") returns a node of rank " << f->getRank() << " or one that was erased, after " << log); } vf::note("searches"); break; }
      case 6: { if (!inside[i]) break; bool up = s.chance(1, 2); N* g = up ? t->suf(all[i].n) : t->pre(all[i].n); bool strict = true; long long best = 0; bool any = false; int eq = 0; for (int j = 0; j < K; ++j) if (inside[j] && j != i) { if (all[j].key == all[i].key) ++eq; if (up ? all[j].key > all[i].key : all[j].key < all[i].key) { if (!any || (up ? all[j].key < best : all[j].key > best)) best = all[j].key; any = true; } } (void)strict;
          if (eq == 0) { VF_CHECK("C21:neighbour", (g != nullptr) == any && (!g || g->getRank() == best), (up ? "successor" : "predecessor") << " of " << nm << " is " << (g ? std::to_string(g->getRank()) : "null") << ", expected " << (any ? std::to_string(best) : "null") << " after " << log); } else if (g) VF_CHECK("C21:neighbour", g->getRank() == all[i].key || (any && g->getRank() == best), "neighbour of " << nm << " has rank " << g->getRank() << " after " << log); vf::note("neighbour queries"); log += up ? " >" + nm : " <" + nm; break; }
      default: { all[i].val = (int)s.range(-1000, 1000); all[i].n->setVal(all[i].val); if (s.chance(1, 4)) audit(); }
    }
    if (log.size() > 1500) log = "..." + log.substr(log.size() - 1000);
  }
  audit(); for (int i = 0; i < K && s.chance(3, 4); ++i) if (inside[i]) { t->erase(all[i].n); inside[i] = 0; log += " -#" + std::to_string(i); VF_CHECK("C21:find", [&] { N* f = t->find(all[i].key); return f != all[i].n; }(), "an erased node is found after " << log); if (K < 20) audit(); }
  if (done > 1) vf::nontrivial(); vf::sample([&] { return log; });
}
