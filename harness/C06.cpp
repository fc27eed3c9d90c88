// JSON values survive dump() -> loadJSON(), and dump() writes JSON that denotes the value.
#include "json_model.h"
using namespace jm;
// Every string of one and two bytes as value and as key; doubles around every power of two and ten; ints around every power of two.
static void sweep() {
  auto round = [](const J& j, const JSONObject& x, const char* what) { std::string t = x.dump(); Rd rd(t); J back = rd.doc(); VF_CHECK("C06:dump-not-json", !rd.bad && !rd.loose, what << ": not a JSON text: " << vf::quote(t)); VF_CHECK("C06:dump-value", same(back, j, FT::Exact), what << ": denotes another value: " << vf::quote(t)); JSONObject y = cuhksz::loadJSON(t); std::string d = diff(y, j, FT::Exact); VF_CHECK("C06:round-trip", d.empty(), what << ": " << vf::quote(t) << " loads differently: " << d); vf::note("swept documents"); };
  for (int a = -1; a < 256; ++a) { J j = mk(Ty::Array), o = mk(Ty::Object); JSONObject x = JSONObject::Array(), y = JSONObject::Object(); for (int b = 0; b < 256; ++b) { std::string w; if (a >= 0) w += (char)a; w += (char)b; J e = mk(Ty::String); e.s = w; j.a.push_back(e); x.append(w); o.o[w] = e; y[w] = w; } round(j, x, "strings of one or two bytes"); round(o, y, "keys of one or two bytes"); }
  J f = mk(Ty::Array); JSONObject x = JSONObject::Array(); auto add = [&](double v) { for (double u : {v, std::nextafter(v, 0.0), std::nextafter(v, 1e308), -v}) { J e = mk(Ty::Float); e.f = u; f.a.push_back(e); x.append(u); } };
  for (int k = -1020; k < 1023; ++k) add(std::ldexp(1.0, k)); for (int k = -300; k <= 300; ++k) add(std::pow(10.0, k)); round(f, x, "doubles");
  J i = mk(Ty::Array); JSONObject y = JSONObject::Array(); auto addi = [&](long long v) { if (v < -2147483648ll || v > 2147483647ll) return; J e = mk(Ty::Integral); e.i = (int)v; i.a.push_back(e); y.append((int)v); };
  for (int k = 0; k < 32; ++k) for (int q = -2; q <= 2; ++q) { addi((1ll << k) + q); addi(-(1ll << k) + q); } for (int v = -1100; v <= 1100; ++v) addi(v); round(i, y, "integers");
}
VF_HARNESS2(C06, true, sweep) {
  J j = gen(s); JSONObject x = build(j, s);
  std::string d = diff(x, j, FT::Exact);
  VF_CHECK("C06:built-value", d.empty(), "value " << show(j) << " built through the API differs: " << d);
  std::string text; int mode = (int)s.below(4);
  int depth = 1; std::string tab = "  ";
  if (mode == 0) { std::ostringstream o; std::ostream& r = (o << x); VF_CHECK("C06:dump", &r == (std::ostream*)&o, "operator<< returns another stream"); text = o.str(); VF_CHECK("C06:dump", text == x.dump(), "operator<< and dump() differ for " << show(j)); }
  else if (mode == 1) { depth = (int)s.below(12); tab = s.str(5, " \t\n"); text = x.dump(depth, tab); }
  else text = x.dump();
  // what was written must be JSON for the value
  Rd rd(text); J back = rd.doc();
  VF_CHECK("C06:dump-not-json", !rd.bad && !rd.loose, "dump of " << show(j) << " is not a JSON text: " << vf::quote(text));
  VF_CHECK("C06:dump-value", same(back, j, FT::Exact), "dump of " << show(j) << " denotes " << show(back) << ": " << vf::quote(text));
  // and loads back to the same value
  JSONObject y = cuhksz::loadJSON(text);
  d = diff(y, j, FT::Exact);
  VF_CHECK("C06:round-trip", d.empty(), "value " << show(j) << " dumped as " << vf::quote(text) << " loads differently: " << d);
  std::string again = y.dump(depth, tab);
  VF_CHECK("C06:dump-stable", again == text, "dump(load(dump)) differs: " << vf::quote(text) << " vs " << vf::quote(again));
  // inside another document
  if (s.chance(1, 3)) {
    JSONObject z = cuhksz::loadJSON("[" + text + "," + text + "]"); VF_CHECK("C06:round-trip", z.length() == 2, "length " << z.length() << " for [t,t], t=" << vf::quote(text));
    d = diff(z[1], j, FT::Exact); VF_CHECK("C06:round-trip", d.empty(), "second element of [t,t] differs: " << d << " t=" << vf::quote(text));
  }
  d = diff(x, j, FT::Exact); VF_CHECK("C06:dump-changes", d.empty(), "value changed by dump(): " << d);
  vf::note("values round-tripped"); vf::note("nodes compared", nodes(j)); vf::sig(text); if (j.t == Ty::Array || j.t == Ty::Object || j.t == Ty::String) vf::nontrivial();
  vf::sample([&] { return text; });
}
