// Whatever bytes it is given, the JSON loader terminates, stays in bounds, and either returns a value or rejects.
#include <cstring>
#include "json_model.h"
using namespace jm;
namespace {
const char* TOK[] = {"{", "}", "[", "]", ":", ",", "\"", "\\", "\"a\"", "\"k\":", "true", "false", "null", "1", "-", "0.5", "1e", "e5", "1e+", "\\u00", "\\u0041", " ", "tru", "nul", "1.", "-1", "\"\\", "x", "\n", "[]", "{}", "1e5", "1E-3"};
std::string mutate(vf::Src& s, std::string t) {
  int n = 1 + (int)s.below(4);
  for (int i = 0; i < n; ++i) {
    size_t p = t.empty() ? 0 : s.below(t.size() + 1); size_t q = p < t.size() ? p : (t.empty() ? 0 : t.size() - 1);
    switch (s.below(7)) {
      case 0: t.resize(p); break; case 1: if (!t.empty()) t.erase(q, 1 + s.below(4)); break; case 2: t.insert(p, TOK[s.below(33)]); break; case 3: if (!t.empty()) t[q] = (char)s.byte(); break;
      case 4: t.insert(p, 1, (char)s.byte()); break; case 5: if (!t.empty()) { std::string c = t.substr(q, 1 + s.below(12)); t.insert(p, c); } break; default: if (!t.empty()) t[q] = "{}[]:,\"\\0e.-"[s.below(12)];
    }
  }
  return t;
}
// One edit at a bracket, comma or colon of the structure (not inside a string), in containers of any width.
std::string structural(vf::Src& s) {
  std::string t;
  if (s.chance(1, 2)) { J j = gen(s); t = spell(j, s); }
  else { int n = 1 + s.size(s.chance(1, 6) ? 300 : 40), kind = (int)s.below(3); static const char* E[] = {"1", "-2", "true", "null", "\"x\"", "0.5", "[]", "{}", "[1]", "{\"a\":1}", "1e5"}; t = kind == 1 ? "{" : "["; for (int i = 0; i < n; ++i) { if (i) t += s.chance(1, 4) ? " , " : ","; if (kind == 1) t += "\"k" + std::to_string(i) + "\":"; t += E[s.below(11)]; } t += kind == 1 ? "}" : "]"; if (s.chance(1, 3)) t = "[[" + t + "], 3]"; }
  std::vector<size_t> at; bool in = false; for (size_t i = 0; i < t.size(); ++i) { if (in) { if (t[i] == '\\') ++i; else if (t[i] == '"') in = false; } else if (t[i] == '"') in = true; else if (std::strchr("{}[],:", t[i])) at.push_back(i); }
  if (at.empty()) return t + ","; size_t p = s.chance(1, 3) ? at[at.size() - 1 - s.below(std::min<size_t>(at.size(), 4))] : at[s.below(at.size())];
  switch (s.below(7)) { case 0: t.insert(p, s.chance(1, 3) ? ", " : ","); break; case 1: t.insert(p + 1, ","); break; case 2: t.erase(p, 1); break; case 3: t.insert(p, 1, t[p]); break; case 4: t[p] = "{}[],:"[s.below(6)]; break; case 5: t[p] = ";|()=<> "[s.below(8)]; break; default: { size_t q = s.pick(at); std::swap(t[p], t[q]); } }
  return t;
}
void judge(const std::string& t, const char* kind) {
  Rd rd(t); J w = rd.doc(); bool big = rd.maxd > 1000; if (big) return;
  std::string dumped; int ty = -1; std::string d;
  std::string* heap = new std::string(t);  // exact-size heap text: reads past the end are visible
  heap->shrink_to_fit();
  vf::Outcome o = vf::observe([&] { JSONObject x = cuhksz::loadJSON(*heap); ty = (int)x.getType(); dumped = x.dump(); if (!rd.bad && !rd.loose) d = diff(x, w, FT::Rel); });
  bool intact = *heap == t; delete heap;
  VF_CHECK("C08:input-changed", intact, "the text was modified");
  VF_CHECK("C08:exception", !o.threw, kind << ": exception " << o.what << " for " << vf::quote(t));
  if (o.exited) VF_CHECK("C08:rejection", o.status != 0 && !o.diag.empty(), kind << ": exit status " << o.status << ", diagnostic '" << o.diag << "' for " << vf::quote(t));
  if (rd.bad) VF_CHECK("C08:accepted-malformed", o.exited, kind << ": malformed text accepted as " << vf::quote(dumped) << ": " << vf::quote(t));
  if (!rd.bad && !rd.loose) { VF_CHECK("C08:rejected-valid", !o.exited, kind << ": valid text rejected (" << o.diag << "): " << vf::quote(t)); VF_CHECK("C08:value", d.empty(), kind << ": valid text " << vf::quote(t) << " loads differently: " << d); }
  vf::note(o.exited ? "texts rejected" : "texts accepted"); if (rd.bad) vf::note("structurally malformed texts"); if (rd.loose && !rd.bad) vf::note("texts outside strict JSON but not structurally malformed");
}
}  // namespace
// Small texts completely: every text of up to two bytes, and every byte in each place of short documents.
static void sweep() {
  for (int a = 0; a < 256; ++a) { judge(std::string(1, (char)a), "one byte"); for (int b = 0; b < 256; ++b) { std::string t(1, (char)a); t += (char)b; judge(t, "two bytes"); } }
  static const char* D[] = {"\"\\u?000\"", "\"\\u0?0a\"", "\"\\u00?F\"", "\"\\uabC?\"", "\"\\?\"", "\"?\"", "\"a?", "[1?2]", "[?]", "[1,?]", "[1?", "[?1]", "{\"a\"?1}", "{?:1}", "{\"a\":?}", "{\"a\":1?\"b\":2}", "{\"a\":1?", "{?}", "{?\"a\":1}", "{\"a?\":1}", "?rue", "t?ue", "tr?e", "tru?", "true?", "f?lse", "fals?", "false?", "?ull", "nul?", "null?", "1?", "-?", "1e?", "1E?5", "1e+?", "1e-5?", "1.?", "1.5?", "1?5", "1.?5", "12?5e3", "?1", " ?1", "1 ?", "\"x\"?", "[]?", "{}?", "[1]?", "[true?]", "[null?false]", "[\"a\"?\"b\"]", "{\"a\":\"b\"?}", "[[]?[]]", "[{}?{}]", "[-?]", "[1.5?]", "[1e5?]", "[1?]"};
  for (const char* d : D) for (int b = 0; b < 256; ++b) { std::string t(d); t[t.find('?')] = (char)b; judge(t, "every byte"); vf::note("every byte in each place of a short document"); }
}
VF_HARNESS2(C08, true, sweep) {
  if (vf::mt()) return;
  std::string t; const char* kind = "";
  switch (s.below(9)) {
    case 7: t = structural(s); kind = "structural edit"; break;
    case 0: { // every prefix of a container or string document is rejected
      J j; do { j = gen(s); } while (!s.exhausted() && j.t != Ty::Object && j.t != Ty::Array && j.t != Ty::String); if (j.t != Ty::Object && j.t != Ty::Array && j.t != Ty::String) { j = mk(Ty::Array); }
      t = spell(j, s); size_t n = t.size();
      if (n < 120) for (size_t k = 0; k < n; ++k) { vf::Outcome o = vf::observe([&] { JSONObject x = cuhksz::loadJSON(t.substr(0, k)); }); VF_CHECK("C08:accepted-truncated", o.exited && o.status != 0 && !o.diag.empty(), "truncated text accepted: " << vf::quote(t.substr(0, k))); vf::note("truncated texts rejected"); }
      else { t = t.substr(0, s.below(n)); vf::Outcome o = vf::observe([&] { JSONObject x = cuhksz::loadJSON(t); }); VF_CHECK("C08:accepted-truncated", o.exited && o.status != 0 && !o.diag.empty(), "truncated text accepted: " << vf::quote(t)); vf::note("truncated texts rejected"); }
      vf::sig(t); vf::nontrivial(); vf::sample([&] { return "all prefixes of " + vf::quote(t); }); return;
    }
    case 1: case 2: { J j = gen(s); t = mutate(s, spell(j, s)); kind = "mutated document"; break; }
    case 3: { int n = (int)s.below(24); for (int i = 0; i < n; ++i) t += TOK[s.below(33)]; kind = "token soup"; break; }
    case 4: t = s.bytes(60); kind = "bytes"; break;
    case 5: t = s.str(30, "{}[]:,\"\\ \n0123456789.eE+-tfnu"); kind = "character soup"; break;
    case 6: { int d = 1 + s.size(900); const char* o = s.chance(1, 2) ? "[" : "{\"k\":"; for (int i = 0; i < d; ++i) t += o; if (s.chance(1, 2)) { t += "1"; for (int i = 0; i < d; ++i) t += *o == '[' ? "]" : "}"; } if (s.chance(1, 3)) t = mutate(s, t); kind = "deep nesting"; break; }
    default: { // numbers and literals at the end of the text and of containers
      static const char* N[] = {"1", "-", "1.5", "1e", "1e+", "1e-", "1e5", "-0.0e0", "1e99999999999", "1.0E-400", "9999999999", "0e400", "1..2", "--1", "-1-1", "1e5e5", "truefalse", "tru", "nulll", "\"\\u12", "\"\\u123g\"", "\"\\", "\"abc", "e5", "+1", ".5", "1e1.5", "1 ", "-e", ".", "1e 5", "1e]", "1e,"};
      t = N[s.below(33)]; const char* w[] = {"", "[", "{\"a\":", "[1,", "{\"b\":2,\"a\":", " "}; const char* z[] = {"", "]", "}", ",", "]]", " "}; t = w[s.below(6)] + t + z[s.below(6)]; kind = "scalar edge"; if (s.chance(1, 12)) { J dj = gen(s); t = spell(dj, s); t += s.str(2, " \n"); t += '\0'; t += s.str(4, "]} \n1x"); kind = "zero byte behind a document"; }
    }
  }
  judge(t, kind); vf::sig(t); vf::nontrivial(); vf::sample([&] { return std::string(kind) + " " + vf::quote(t); });
}
