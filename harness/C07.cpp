// Every JSON document loads to the value it denotes, whatever its spelling and layout.
#include "json_model.h"
using namespace jm;
static void fuzzed(vf::Src& s) {  // a mutated document that still is strict JSON
  J j = gen(s); std::string t = spell(j, s); int n = 1 + (int)s.below(3);
  for (int i = 0; i < n && !t.empty(); ++i) { size_t p = s.below(t.size()); switch (s.below(3)) { case 0: t[p] = "0123456789,:[]{}\"\\ntrue.eE+- "[s.below(29)]; break; case 1: t.erase(p, 1 + s.below(3)); break; default: t.insert(p, 1, "0123456789,:[]{}\"\\ntrue.eE+- "[s.below(29)]); } }
  Rd rd(t); J w = rd.doc(); if (rd.bad || rd.loose || t.empty()) { vf::note("mutants that are not strict JSON (skipped)"); return; }
  JSONObject x = cuhksz::loadJSON(t); std::string d = diff(x, w, FT::Rel);
  VF_CHECK("C07:value", d.empty(), "document " << vf::quote(t) << " loads to another value: " << d);
  vf::note("mutated documents that are JSON"); vf::sig(t); vf::nontrivial();
}
// Every four-digit unicode escape in both cases, every two-character escape, every decimal exponent of double, every small integer.
static void sweep() {
  auto load = [](const std::string& t, const char* what) { Rd rd(t); J w = rd.doc(); if (rd.bad || rd.loose) return; JSONObject x = cuhksz::loadJSON(t); std::string d = diff(x, w, FT::Rel); VF_CHECK("C07:value", d.empty(), what << ": a document of " << t.size() << " characters loads to another value: " << d); vf::note("swept documents"); };
  for (int h = 0; h < 256; ++h) { std::string t = "[", u = "{"; for (int l = 0; l < 256; ++l) { char b[40]; snprintf(b, 40, "%s\"a\\u%04x\\u%04X\"", l ? "," : "", h * 256 + l, h * 256 + l); t += b; u += b; u += ":" + std::to_string(l); } load(t + "]", "unicode escapes"); load(u + "}", "unicode escapes in keys"); }
  for (const char* e : {"\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t"}) for (int b = 1; b < 256; ++b) if (b != '"' && b != '\\') { std::string c(1, (char)b); load("[\"" + c + e + "\", \"" + e + c + e + "\"]", "escapes next to every byte"); }
  for (const char* m : {"1", "-7", "0.5", "12.25", "0", "99999"}) { std::string t = "["; for (int k = -290; k <= 290; ++k) t += std::string(t.size() > 1 ? "," : "") + m + (k % 2 ? "e" : "E") + (k > 0 && k % 3 ? "+" : "") + std::to_string(k); load(t + "]", "exponents"); }
  for (int v = -3000; v <= 3000; v += 500) { std::string t = "["; for (int k = 0; k < 500; ++k) t += std::string(k ? " , " : "") + std::to_string(v + k); load(t + "]", "integers"); }
  for (int k = 0; k < 31; ++k) for (int q = -2; q <= 2; ++q) { load(std::to_string((1ll << k) + q), "integers"); load(" [" + std::to_string(-(1ll << k) + q) + "] ", "integers"); } load("[2147483647,-2147483648,-2147483647,2147483646]", "integers");
}
VF_HARNESS2(C07, true, sweep) {
  if (s.chance(1, 4)) return fuzzed(s);
  J j;
  if (s.chance(1, 4)) { j.t = Ty::Array; int n = 1 + (int)s.below(6); for (int i = 0; i < n; ++i) { J e; e.t = s.chance(3, 4) ? Ty::Float : Ty::Integral; e.i = (int)s.range(-2147483647 - 1, 2147483647); j.a.push_back(e); } }
  else j = gen(s);
  std::string t = wsp(s) + spell(j, s) + wsp(s);
  JSONObject x = cuhksz::loadJSON(t); std::string d = diff(x, j, FT::Rel);
  VF_CHECK("C07:value", d.empty(), "document " << vf::quote(t) << " loads to another value: " << d);
  // non-const navigation finds the same elements and creates nothing
  if (j.t == Ty::Object) for (auto& e : j.o) { d = diff(x[e.first], e.second, FT::Rel); VF_CHECK("C07:value", d.empty(), "x[" << vf::quote(e.first) << "] of " << vf::quote(t) << ": " << d); VF_CHECK("C07:value", x.size() == (int)j.o.size(), "looking up " << vf::quote(e.first) << " changed the size"); }
  if (j.t == Ty::Array) for (size_t i = 0; i < j.a.size(); ++i) { d = diff(x[(int)i], j.a[i], FT::Rel); VF_CHECK("C07:value", d.empty(), "x[" << i << "] of " << vf::quote(t) << ": " << d); }
  vf::note("documents loaded"); vf::note("nodes compared", nodes(j)); vf::sig(t); vf::nontrivial();
  vf::sample([&] { return t; });
}
