// JSONObject is a value: copies are deep and independent, self and sub-object assignment are safe, nothing leaks.
#include "json_model.h"
using namespace jm;
namespace {
struct V { JSONObject x; J m; };
// a random node of the pair (object, model)
void descend(vf::Src& s, JSONObject*& p, J*& m, int steps) {
  while (steps-- > 0) {
    if (m->t == Ty::Array && !m->a.empty()) { size_t k = s.below(m->a.size()); if (s.chance(1, 2)) p = &(*p)[(int)k]; else p = &p->at((unsigned)k); m = &m->a[k]; }
    else if (m->t == Ty::Object && !m->o.empty()) { auto it = m->o.begin(); std::advance(it, s.below(m->o.size())); if (s.chance(1, 2)) p = &(*p)[it->first]; else p = &p->at(it->first); m = &it->second; }
    else break;
  }
}
J small(vf::Src& s) { int b = 8; return gen(s, 2, b); }
}  // namespace
VF_HARNESS(C09) {
  const int N = 3; V v[N]; std::string log;
  for (auto& e : v) { e.m = small(s); e.x = build(e.m, s); }
  int n = 1 + s.size(60), done = 0;
  for (int step = 0; step < n && !s.exhausted(); ++step) {
    int ia = (int)s.below(N), ib = (int)s.below(N); V &a = v[ia], &b = v[ib]; int op = (int)s.below(21); log += " " + std::to_string(op) + ":" + std::to_string(ia) + std::to_string(ib); vf::sig((uint64_t)op * 16 + ia * 4 + ib);
    JSONObject* pa = &a.x; J* ma = &a.m; JSONObject* pb = &b.x; J* mb = &b.m;
    switch (op) {
      case 0: { JSONObject c(a.x); J cm = a.m; std::string d = diff(c, cm, FT::Exact); VF_CHECK("C09:copy", d.empty(), "copy differs: " << d); c = JSONObject::Array(1); d = diff(a.x, a.m, FT::Exact); VF_CHECK("C09:copy-shares", d.empty(), "changing a copy changed the original: " << d); break; }
      case 1: a.x = b.x; a.m = J(b.m); break;
      case 2: { descend(s, pa, ma, 1 + (int)s.below(3)); J t = *ma; JSONObject& r = (a.x = *pa); VF_CHECK("C09:returns", &r == &a.x, "operator= returns another object"); a.m = t; break; }     // own sub-object (or itself)
      case 3: { descend(s, pa, ma, 1 + (int)s.below(3)); J t = *ma; a.x = std::move(*pa); a.m = t; break; }       // moved own sub-object
      case 4: { J t = b.m; descend(s, pa, ma, 1 + (int)s.below(2)); JSONObject& r = (*pa = b.x); (void)r; *ma = t; break; }  // whole into a part (possibly of itself)
      case 5: { if (ia == ib) break; descend(s, pa, ma, (int)s.below(3)); descend(s, pb, mb, 1 + (int)s.below(3)); *pa = std::move(*pb); *ma = *mb; *pb = nullptr; *mb = J(); break; }
      case 6: { descend(s, pa, ma, (int)s.below(3)); JSONObject& y = *pa; JSONObject& z = y; y = z; break; }       // self assignment
      case 7: { if (ia == ib) break; JSONObject c(std::move(a.x)); std::string d = diff(c, a.m, FT::Exact); VF_CHECK("C09:move", d.empty(), "moved-to object differs: " << d); b.x = std::move(c); b.m = a.m; a.m = small(s); a.x = build(a.m, s); break; }
      case 8: { if (ia == ib) break; std::swap(a.x, b.x); std::swap(a.m, b.m); break; }
      case 9: { descend(s, pa, ma, (int)s.below(3)); J e = small(s); JSONObject je = build(e, s); pa->append(je); if (ma->t != Ty::Array) *ma = mk(Ty::Array); ma->a.push_back(e); break; }
      case 10: { descend(s, pa, ma, (int)s.below(3)); int k = (int)s.below(6); J e = small(s); JSONObject je = build(e, s); if (s.chance(1, 2)) (*pa)[k] = je; else pa->at((unsigned)k) = je; if (ma->t != Ty::Array) *ma = mk(Ty::Array); if ((int)ma->a.size() <= k) ma->a.resize(k + 1); ma->a[k] = e; break; }
      case 11: { descend(s, pa, ma, (int)s.below(3)); std::string k = gstr(s, false); J e = small(s); JSONObject je = build(e, s); if (s.chance(1, 2)) (*pa)[k.c_str()] = je; else (*pa)[k] = je; if (ma->t != Ty::Object) *ma = mk(Ty::Object); ma->o[k] = e; break; }
      case 12: { descend(s, pa, ma, (int)s.below(3)); switch (s.below(5)) { case 0: *pa = 3; *ma = mk(Ty::Integral); ma->i = 3; break; case 1: *pa = 2.5; *ma = mk(Ty::Float); ma->f = 2.5; break; case 2: *pa = true; *ma = mk(Ty::Boolean); ma->b = true; break; case 3: { std::string t = gstr(s); *pa = t; *ma = mk(Ty::String); ma->s = t; break; } default: *pa = nullptr; *ma = J(); } break; }
      case 13: { descend(s, pa, ma, (int)s.below(3)); descend(s, pb, mb, (int)s.below(3)); J t = *mb; int how = (int)s.below(5); J w = *ma;  // any part to any part, also of the same value; the kind may change under it
        if (how == 0) pa->append(*pb); else if (how == 1) pa->append(*pb, *pb); else if (how == 2) pa->append(1, *pb, *pa); else if (how == 4) { const char* z = "z"; pa->append(1, *pb, true, z, nullptr, 2.5, std::string("s")); } else { JSONObject cp(*pb); pa->append(std::move(cp)); }
        if (ma->t != Ty::Array) *ma = mk(Ty::Array); J one = mk(Ty::Integral); one.i = 1; if (how == 2 || how == 4) ma->a.push_back(one); ma->a.push_back(t); if (how == 4) { J q = mk(Ty::Boolean); q.b = true; ma->a.push_back(q); q = mk(Ty::String); q.s = "z"; ma->a.push_back(q); ma->a.push_back(J()); q = mk(Ty::Float); q.f = 2.5; ma->a.push_back(q); q = mk(Ty::String); q.s = "s"; ma->a.push_back(q); } if (how == 1) ma->a.push_back(t); if (how == 2) ma->a.push_back(w); break; }
      case 14: { J t = a.m; a.x.append(a.x); if (a.m.t != Ty::Array) a.m = mk(Ty::Array); a.m.a.push_back(t); break; }             // appended to itself
      case 15: { if (a.m.t != Ty::Object || b.m.t == Ty::Null) break; J t = b.m; a.x["self"] = b.x; if (ia == ib) { break; } a.m.o["self"] = t; break; }
      case 16: { int k = 0; if (a.m.t == Ty::Array) { for (auto& e : a.x.ArrayRange()) { if (k % 2) { e = k; } ++k; } for (size_t i = 0; i < a.m.a.size(); ++i) if (i % 2) { a.m.a[i] = mk(Ty::Integral); a.m.a[i].i = (int)i; } }
        else if (a.m.t == Ty::Object) { for (auto& e : a.x.ObjectRange()) { if (k % 2) e.second = k; ++k; } k = 0; for (auto& e : a.m.o) { if (k % 2) { e.second = mk(Ty::Integral); e.second.i = k; } ++k; } }
        else { for (auto& e : a.x.ArrayRange()) { (void)e; ++k; } for (auto& e : a.x.ObjectRange()) { (void)e; ++k; } VF_CHECK("C09:scalar-iterates", k == 0, "a scalar iterates over " << k << " elements"); }
        break; }
      case 17: { // const ranges, and ranges held in const variables
        const JSONObject& c = a.x; int k = 0; if (a.m.t == Ty::Array) { const auto r = a.x.ArrayRange(); for (auto it = r.begin(); it != r.end(); ++it) ++k; VF_EQ("C09:const-range", k, (int)a.m.a.size(), "const range over an array"); }
        else if (a.m.t == Ty::Object) { const auto r = a.x.ObjectRange(); for (auto it = r.begin(); it != r.end(); ++it) ++k; VF_EQ("C09:const-range", k, (int)a.m.o.size(), "const range over an object"); }
        (void)c; break; }
      case 18: { // reading what is not there through a const object is rejected and changes nothing
        if (vf::mt()) break; descend(s, pa, ma, (int)s.below(3)); const JSONObject& c = *pa; vf::Outcome o; std::string what;
        if (s.chance(1, 2)) { std::string k = "no such key"; if (ma->t == Ty::Object && ma->o.count(k)) break; o = vf::observe([&] { (void)c.at(k).getType(); }); what = "at(key)"; } else { unsigned k = ma->t == Ty::Array ? (unsigned)ma->a.size() + (unsigned)s.below(4) : (unsigned)s.below(4); o = vf::observe([&] { (void)c.at(k).getType(); }); what = "at(index)"; }
        VF_CHECK("C09:const-missing", o.threw || (o.exited && o.status != 0 && !o.diag.empty()), "const " << what << " of a missing element of " << show(*ma) << " was not rejected"); vf::note("missing elements rejected"); break; }
      case 19: { // a list of keys and values; a key that is repeated keeps the last value
        J e = small(s), f = small(s), g = small(s); std::string k1 = gstr(s), k2 = s.chance(1, 3) ? k1 : gstr(s), k3 = s.chance(1, 3) ? k1 : gstr(s); JSONObject x = {k1, build(e, s), k2, build(f, s), k3, build(g, s)}; a.x = x; a.m = mk(Ty::Object); a.m.o[k1] = e; a.m.o[k2] = f; a.m.o[k3] = g; break; }
      default: { if (vf::mt()) break; int k = -1 - (int)s.below(3); if (s.chance(1, 8)) k = -2147483647 - 1; if (!s.chance(1, 4)) break; JSONObject c = JSONObject::Array(1, 2); vf::Outcome o = vf::observe([&] { c[k]; }); VF_CHECK("C09:negative-index", o.exited && o.status != 0 && !o.diag.empty(), "operator[](" << k << ") on an array was not rejected"); vf::note("negative indices rejected"); }
    }
    if (nodes(a.m) > 3000 || nodes(b.m) > 3000) { a.m = J(); a.x = nullptr; b.m = J(); b.x = nullptr; }
    if (op == 15 && ia == ib) { a.x = build(a.m, s); }
    for (int k = 0; k < N; ++k) { std::string d = diff(v[k].x, v[k].m, FT::Exact); VF_CHECK("C09:model", d.empty(), "after operations" << log << " (last " << op << ") object " << k << " differs from the model: " << d); }
    ++done; vf::note("operations compared");
  }
  if (done > 2) vf::nontrivial();
  vf::sample([&] { return "ops" + log + " -> " + show(v[0].m); });
}
