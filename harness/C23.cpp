// Vertex and Edge: adjacency bookkeeping, identities and ownership of edges.
#include "graph/Edge.h"
#include "graph/Vertex.h"
#include "vf.h"
#include <memory>
#include <set>
#include <sys/wait.h>
namespace {
using cuhksz::Edge; using cuhksz::Vertex;
struct ME { int from, to, val; bool use; Edge* e; int id; };
void graph(vf::Src& s) {
  int n = 1 + (int)s.below(10), ops = 1 + s.size(60), done = 0; bool many = s.below(250) == 249; if (many) ops = (int)s.uni(300, 3000); std::vector<std::unique_ptr<Vertex>> v; std::vector<int> val(n), id(n); std::vector<bool> use(n, true); std::vector<std::vector<int>> out(n), in(n); std::vector<ME> es; std::string log;
  for (int i = 0; i < n; ++i) { if (s.chance(1, 3)) { v.emplace_back(new Vertex()); val[i] = 0; } else { val[i] = (int)s.range(-50, 50); if (s.chance(1, 4)) { Vertex tmp(val[i]); if (s.chance(1, 2)) { tmp.setInvalid(); use[i] = false; } v.emplace_back(new Vertex(tmp)); VF_CHECK("C23:identity", v[i]->getID() != tmp.getID() && *v[i] != tmp, "a copied vertex has the identity of its source"); } else v.emplace_back(new Vertex(val[i])); } id[i] = v[i]->getID(); }
  auto audit = [&]() {
    std::set<int> ids; for (int i = 0; i < n; ++i) { Vertex& x = *v[i]; VF_CHECK("C23:vertex", x.getVal() == val[i] && x.isValid() == use[i] && x.getID() == id[i], "vertex " << i << " has value " << x.getVal() << ", valid " << x.isValid() << ", id " << x.getID() << " after " << log); VF_CHECK("C23:identity", ids.insert(x.getID()).second, "two vertices share id " << x.getID());
      VF_CHECK("C23:degree", x.getOutDegree() == (int)out[i].size() && x.getInDegree() == (int)in[i].size() && x.outEdges.size() == out[i].size() && x.inEdges.size() == in[i].size(), "vertex " << i << " has out-degree " << x.getOutDegree() << " and in-degree " << x.getInDegree() << ", expected " << out[i].size() << " and " << in[i].size() << " after " << log);
      size_t k = 0; for (Edge* e : x.outEdges) { ME& m = es[out[i][k++]]; VF_CHECK("C23:adjacency", e == m.e && e->getFrom() == v[i].get() && e->getTo() == v[m.to].get() && e->getVal() == m.val && e->isValid() == m.use && e->getID() == m.id, "out-edge " << k - 1 << " of vertex " << i << " after " << log); } k = 0; for (Edge* e : x.inEdges) { ME& m = es[in[i][k++]]; VF_CHECK("C23:adjacency", e == m.e && e->getTo() == v[i].get(), "in-edge " << k - 1 << " of vertex " << i << " after " << log); } }
    std::set<int> eids; for (ME& m : es) VF_CHECK("C23:identity", eids.insert(m.e->getID()).second, "two edges share id " << m.e->getID()); vf::note("audits");
  };
  for (int st = 0; st < ops && !s.exhausted(); ++st) {
    int i = (int)s.below(n), j = (int)s.below(n), op = (int)s.below(10); vf::sig((uint64_t)op * 256 + i * 16 + j); Vertex &x = *v[i], &y = *v[j];
    switch (op) {
      case 0: case 1: case 2: case 3: { int w = (int)s.range(-20, 20); if (s.chance(1, 4)) { w = 0; x.addEdge(y); } else x.addEdge(y, w); VF_CHECK("C23:adjacency", !x.outEdges.empty() && !y.inEdges.empty() && x.outEdges.back() == y.inEdges.back(), "a new edge is not at the end of both lists after " << log); Edge* e = x.outEdges.back(); es.push_back({i, j, w, true, e, e->getID()}); out[i].push_back((int)es.size() - 1); in[j].push_back((int)es.size() - 1); ++done; log += " " + std::to_string(i) + "->" + std::to_string(j); vf::note("edges added"); break; }
      case 4: val[i] = (int)s.range(-50, 50); x.setVal(val[i]); break;
      case 5: use[i] = s.chance(1, 2); if (use[i]) x.setValid(); else x.setInvalid(); break;
      case 6: if (!es.empty()) { ME& m = es[s.below(es.size())]; m.val = (int)s.range(-20, 20); m.e->setVal(m.val); m.use = s.chance(1, 2); if (m.use) m.e->setValid(); else m.e->setInvalid(); } break;
      case 7: VF_CHECK("C23:compare", (x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (val[i] < val[j]), "comparison of vertices " << i << " and " << j); break;
      case 8: x = *&x; log += " self-assign " + std::to_string(i); break;
      default: if (out[i].empty() && in[i].empty() && out[j].empty() && in[j].empty()) { x = y; val[i] = val[j]; use[i] = use[j]; log += " assign " + std::to_string(i) + "=" + std::to_string(j); }
    }
    if (s.chance(1, many ? 200 : 8)) audit(); if (log.size() > 1500) log = "..." + log.substr(log.size() - 1000);
  }
  audit(); if (done > 1) vf::nontrivial(); vf::sample([&] { return log; });
  // whole-graph destruction, in any order, releases every edge exactly once
  while (!v.empty()) { size_t k = s.below(v.size()); v[k].reset(); v.erase(v.begin() + k); }
}
void edges(vf::Src& s) {
  Vertex a(1), b(2); int w = (int)s.range(-20, 20), w2 = (int)s.range(-20, 20); vf::sig((uint64_t)(w + 64) * 512 + w2 + 64); vf::nontrivial(); Edge e(&a, &b, w), f(&b, &a, w2), d(&a, &b); VF_CHECK("C23:edge", e.getFrom() == &a && e.getTo() == &b && e.getVal() == w && e.isValid() && d.getVal() == 0, "construction of an edge"); if (s.chance(1, 2)) e.setInvalid(); Edge c(e); VF_CHECK("C23:edge", c.getFrom() == &a && c.getTo() == &b && c.getVal() == w && c.isValid() == e.isValid(), "copy of an edge"); VF_CHECK("C23:identity", c.getID() != e.getID() && c != e && !(c == e) && e == e && e.getID() != f.getID() && f.getID() != d.getID(), "edge identities");
  VF_CHECK("C23:compare", (e < f) == (w < w2) && (f < e) == (w2 < w) && (e == f) == false && (e != f), "comparison of edges"); int id = f.getID(); Edge& r = f = e; VF_CHECK("C23:edge", &r == &f && f.getFrom() == &a && f.getTo() == &b && f.getVal() == w && f.isValid() == e.isValid() && f.getID() == id, "assignment of an edge"); f = *&f; VF_CHECK("C23:edge", f.getFrom() == &a && f.getVal() == w && f.getID() == id, "self-assignment of an edge"); VF_CHECK("C23:degree", a.getOutDegree() == 0 && b.getInDegree() == 0, "a free-standing edge changed a vertex"); vf::note("edge values");
}
}  // namespace
static void once() {
  // Known finding: vertices that have edges cannot be copied (the copy deletes the same edges again).
  std::string d; int st = vf::real_child([] { { Vertex a(1), b(2); a.addEdge(b, 3); Vertex c(a); } _exit(42); }, d);
  VF_CHECK("C23:copy-with-edges", WIFEXITED(st) && WEXITSTATUS(st) == 42, "copying a vertex that has out-edges and destroying both releases the edges twice: " << d.substr(0, 200));
  st = vf::real_child([] { { Vertex a(1), b(2), c(3); a.addEdge(b, 3); c = a; } _exit(42); }, d);
  VF_CHECK("C23:copy-with-edges", WIFEXITED(st) && WEXITSTATUS(st) == 42, "assigning a vertex that has out-edges and destroying both releases the edges twice: " << d.substr(0, 200));
}
VF_HARNESS2(C23, false, once) { if (s.chance(1, 12)) edges(s); else graph(s); }
