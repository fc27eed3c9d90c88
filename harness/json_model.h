// Reference JSON values, an independent reader, and builders for cuhksz::JSONObject.
#ifndef JSON_MODEL_H
#define JSON_MODEL_H
#include <algorithm>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "json/Json.h"
#include "vf.h"
namespace jm {
using cuhksz::JSONObject;
typedef JSONObject::Type Ty;
struct J {
  Ty t = Ty::Null; int i = 0; double f = 0; bool b = false; std::string s; std::vector<J> a; std::map<std::string, J> o;
};
inline J mk(Ty t) { J j; j.t = t; return j; }

inline std::string esc(const std::string& s) {
  std::string r; for (char c : s) switch (c) { case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; case '\b': r += "\\b"; break; case '\f': r += "\\f"; break; case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += "\\t"; break; default: r += c; }
  return r;
}
inline const char* tn(Ty t) { switch (t) { case Ty::Null: return "Null"; case Ty::Object: return "Object"; case Ty::Array: return "Array"; case Ty::String: return "String"; case Ty::Float: return "Float"; case Ty::Integral: return "Integral"; default: return "Boolean"; } }

inline std::string show(const J& j) {
  switch (j.t) {
    case Ty::Null: return "null"; case Ty::Integral: return std::to_string(j.i); case Ty::Boolean: return j.b ? "true" : "false"; case Ty::Float: return vf::show(j.f) + "f"; case Ty::String: return vf::quote(j.s);
    case Ty::Array: { std::string r = "["; for (auto& x : j.a) { if (r.size() > 1) r += ","; r += show(x); if (r.size() > 500) { r += "..."; break; } } return r + "]"; }
    default: { std::string r = "{"; for (auto& x : j.o) { if (r.size() > 1) r += ","; r += vf::quote(x.first) + ":" + show(x.second); if (r.size() > 500) { r += "..."; break; } } return r + "}"; }
  }
}
// how a Float may differ
enum class FT { Exact, Dec6, Rel };
inline bool feq(double got, double want, FT ft) {
  if (got == want) return true;
  if (ft == FT::Exact) return false;
  double d = std::fabs(got - want);
  if (ft == FT::Dec6) return d <= 5.0e-7 + 1e-12 * std::fabs(want);
  return d <= 1e-12 * std::fabs(want);
}
inline int depth(const J& j) { int d = 0; for (auto& x : j.a) d = std::max(d, depth(x)); for (auto& x : j.o) d = std::max(d, depth(x.second)); return d + 1; }
inline int nodes(const J& j) { int d = 1; for (auto& x : j.a) d += nodes(x); for (auto& x : j.o) d += nodes(x.second); return d; }

// Compares through the public read interface; returns "" or the place and kind of the difference.
inline std::string diff(const JSONObject& g, const J& w, FT ft, int lvl = 0) {
  if (g.getType() != w.t) return std::string("type is ") + tn(g.getType()) + ", expected " + tn(w.t) + " " + show(w);
  if (g.isNull() != (w.t == Ty::Null)) return "isNull()";
  if (w.t != Ty::Integral && g.toInt() != 0) return "toInt() of a non-integral";
  if (w.t != Ty::Boolean && g.toBool()) return "toBool() of a non-boolean";
  if (w.t != Ty::Float && g.toDouble() != 0) return "toDouble() of a non-float";
  if (w.t != Ty::String && !g.toString().empty()) return "toString() of a non-string";
  if (w.t != Ty::Array && g.length() != -1) return "length() of a non-array";
  if (w.t != Ty::Array && w.t != Ty::Object && g.size() != -1) return "size() of a scalar";
  if (w.t != Ty::Object && g.hasKey("a")) return "hasKey() of a non-object";
  switch (w.t) {
    case Ty::Null: break;
    case Ty::Integral: if (g.toInt() != w.i || (int)g != w.i) return "integer " + std::to_string(g.toInt()) + ", expected " + std::to_string(w.i); break;
    case Ty::Boolean: if (g.toBool() != w.b || (bool)g != w.b) return "boolean"; break;
    case Ty::Float: if (!feq(g.toDouble(), w.f, ft) || (double)g != g.toDouble()) return "float " + vf::show(g.toDouble()) + ", expected " + vf::show(w.f);
      if (std::fabs(w.f) < 1e30 && (g.toFloat() != (float)g.toDouble() || (float)g != g.toFloat())) return "toFloat()";
      break;
    case Ty::String: if (g.toString() != esc(w.s) || (std::string)g != esc(w.s)) return "string (escaped) " + vf::quote(g.toString()) + ", expected " + vf::quote(esc(w.s)); break;
    case Ty::Array: {
      if (g.length() != (int)w.a.size() || g.size() != (int)w.a.size()) return "array length " + std::to_string(g.length()) + ", expected " + std::to_string(w.a.size());
      size_t k = 0;
      for (auto& e : g.ArrayRange()) { if (k >= w.a.size()) return "array iteration too long"; if (&e != &g.at((unsigned)k)) return "iteration and at() disagree"; std::string d = diff(e, w.a[k], ft, lvl + 1); if (!d.empty()) return "[" + std::to_string(k) + "]: " + d; ++k; }
      if (k != w.a.size()) return "array iteration too short";
      for (auto& e : g.ObjectRange()) { (void)e; return "an array iterates as an object"; }
      break;
    }
    case Ty::Object: {
      if (g.size() != (int)w.o.size()) { std::string ks; for (auto& e : g.ObjectRange()) ks += " " + vf::quote(e.first); return "object size " + std::to_string(g.size()) + " keys" + ks + ", expected " + show(w); }
      auto it = w.o.begin(); size_t k = 0;
      for (auto& e : g.ObjectRange()) {
        if (k >= w.o.size()) return "object iteration too long";
        if (e.first != it->first) return "key " + vf::quote(e.first) + ", expected " + vf::quote(it->first);
        if (!g.hasKey(it->first)) return "hasKey(" + vf::quote(it->first) + ") is false";
        if (&g.at(it->first) != &e.second) return "at(" + vf::quote(it->first) + ") finds another element";
        std::string d = diff(e.second, it->second, ft, lvl + 1); if (!d.empty()) return "[" + vf::quote(it->first) + "]: " + d;
        ++it; ++k;
      }
      if (k != w.o.size()) return "object iteration too short";
      if (!w.o.count("absent key") && g.hasKey("absent key")) return "hasKey() of an absent key";
      for (auto& e : g.ArrayRange()) { (void)e; return "an object iterates as an array"; }
      break;
    }
  }
  return "";
}

// ---- generation ------------------------------------------------------------
inline std::string gstr(vf::Src& s, bool nul = true) {
  std::string r;
  switch (s.below(8)) {
    case 0: r = ""; break;
    case 1: case 2: r = s.text(s.chance(1, 10) ? 300 : 24); break;
    case 3: r = s.str(12, "\\\"/\b\f\n\r\tunrtbf0a"); break;
    case 4: r = s.pick(std::vector<std::string>{"\\u0041", "\\", "\\\\", "\"", "/", "</script>", "\xc3\xa9\xe4\xb8\xad", "\x01\x1f\x7f", "null", "true", "{\"a\":1}", "[1,2]", " ", "a b", "key:value,", "\n", "\\n"}); break;
    default: r = s.str(8, "abcXYZ019_");
  }
  if (!nul) for (auto& c : r) if (!c) c = '0';
  return r;
}
inline double gdbl(vf::Src& s) {
  switch (s.below(7)) {
    case 6: { uint64_t b = s.next64(); double d; memcpy(&d, &b, 8); if (!std::isfinite(d)) d = 0.1; if (s.chance(1, 8)) d = std::ldexp((double)s.range(-4000, 4000), -1074); return d; }  // any finite bit pattern, subnormals
    case 0: return (double)s.range(-1000000, 1000000) / 1000.0; case 1: return (double)s.range(-2147483648ll, 2147483647ll); case 2: return s.real(-1e15, 1e15);
    case 3: return s.real(-1, 1); case 4: return std::ldexp((double)s.range(-1000000, 1000000), (int)s.uni(-60, 900)); default: return (double)s.range(-100, 100) * 0.25;
  }
}
inline J gen(vf::Src& s, int depth, int& budget) {
  J j; --budget;
  uint64_t k = s.below(depth <= 0 || budget <= 0 ? 6 : 11);
  switch (k) {
    case 0: break; case 1: j.t = Ty::Boolean; j.b = s.chance(1, 2); break; case 2: case 3: j.t = Ty::Integral; j.i = (int)s.range(-2147483647 - 1, 2147483647); break;
    case 4: j.t = Ty::Float; j.f = gdbl(s); break; case 5: j.t = Ty::String; j.s = gstr(s); break;
    case 6: case 7: { j.t = Ty::Array; int n = s.size(s.chance(1, 40) ? 120 : 7); for (int i = 0; i < n && budget > 0; ++i) j.a.push_back(gen(s, depth - 1, budget)); break; }
    default: { j.t = Ty::Object; int n = s.size(s.chance(1, 40) ? 60 : 6); for (int i = 0; i < n && budget > 0; ++i) { std::string key = gstr(s); j.o[key] = gen(s, depth - 1, budget); } }
  }
  return j;
}
inline J wide(vf::Src& s) {  // many small elements: sizes around every power of two up to 2^16, biased to the small ones
  int top = s.chance(1, 6) ? 66000 : s.chance(1, 3) ? 5000 : 1100; int n = (int)s.uni(top / 8, top), kind = (int)s.below(4); J j, e; e.t = Ty::Integral;
  if (kind == 0) { j.t = Ty::Array; for (int i = 0; i < n; ++i) { e.i = i * 7 - 3; j.a.push_back(e); } }
  else if (kind == 1) { j.t = Ty::Object; if (n > 5000) n = 5000; for (int i = 0; i < n; ++i) { e.i = i; j.o[(i % 2 ? "k" : "") + std::to_string(i)] = e; } }
  else if (kind == 2) { j.t = Ty::Array; if (n > 9000) n = 9000; J q[3]; q[0].t = Ty::Object; q[0].o["k"] = e; q[1].t = Ty::String; q[1].s = "v\n"; q[2].t = Ty::Array; for (int i = 0; i < n; ++i) j.a.push_back(q[i % 3]); }
  else { j.t = Ty::String; std::string u = gstr(s); if (u.empty()) u = "ab"; while ((int)j.s.size() < n) j.s += u; if (s.chance(1, 2)) { J p = mk(Ty::Object); p.o[j.s] = j; p.o["k"] = mk(Ty::Boolean); j = p; } }
  return j;
}
inline J gen(vf::Src& s) {
  if (s.below(250) == 249) return wide(s);
  if (s.chance(1, 60)) {  // deep
    int d = 1 + s.size(150); J j; j.t = Ty::Integral; j.i = 7;
    for (int i = 0; i < d; ++i) { J p; if (s.chance(1, 2)) { p.t = Ty::Array; p.a.push_back(j); } else { p.t = Ty::Object; p.o[s.chance(1, 4) ? gstr(s) : "k"] = j; } j = p; }
    return j;
  }
  int b = s.chance(1, 10) ? 300 : 40; return gen(s, 2 + (int)s.below(5), b);
}

// Builds a JSONObject through varied public routes.
inline JSONObject build(const J& j, vf::Src& s) {
  switch (j.t) {
    case Ty::Null: switch (s.below(3)) { case 0: return JSONObject(); case 1: return JSONObject(nullptr); default: return JSONObject::Build(Ty::Null); }
    case Ty::Boolean: { if (s.chance(1, 2)) return JSONObject(j.b); JSONObject x("old"); x = j.b; return x; }
    case Ty::Integral: { if (s.chance(1, 2)) return JSONObject(j.i); if (s.chance(1, 2)) return JSONObject((long)j.i); JSONObject x = JSONObject::Array(1, 2); x = j.i; return x; }
    case Ty::Float: { if (s.chance(1, 2)) return JSONObject(j.f); JSONObject x("old"); x = j.f; return x; }
    case Ty::String: {
      bool z = j.s.find('\0') != std::string::npos;
      switch (s.below(4)) { case 0: return JSONObject(j.s); case 1: if (!z) return JSONObject(j.s.c_str()); return JSONObject(j.s); case 2: { JSONObject x; if (z) x = j.s; else x = j.s.c_str(); return x; } default: { JSONObject x = JSONObject::Object(); x = j.s; return x; } }
    }
    case Ty::Array: {
      JSONObject x; int how = (int)s.below(4);
      if (how == 0) x = JSONObject::Array(); else if (how == 1) x = JSONObject::Build(Ty::Array); else if (how == 2) x = 5; else x = JSONObject::Array();
      if (how == 2) { x[0]; x = JSONObject::Array(); }
      size_t n = j.a.size();
      switch (s.below(4)) {
        case 0: for (auto& e : j.a) x.append(build(e, s)); break;
        case 1: for (size_t i = 0; i < n; ++i) x[(int)i] = build(j.a[i], s); break;
        case 2: for (size_t i = n; i-- > 0;) x.at((unsigned)i) = build(j.a[i], s); break;
        default: {
          size_t i = 0; for (; i + 2 < n; i += 3) x.append(build(j.a[i], s), build(j.a[i + 1], s), build(j.a[i + 2], s));
          for (; i < n; ++i) { JSONObject e = build(j.a[i], s); x.append(e); }
        }
      }
      return x;
    }
    default: {
      std::vector<const std::pair<const std::string, J>*> v; for (auto& e : j.o) v.push_back(&e);
      if (s.chance(1, 4) && v.size() >= 1 && v.size() <= 3) {
        if (v.size() == 1) return JSONObject({JSONObject(v[0]->first), build(v[0]->second, s)});
        if (v.size() == 2) return JSONObject({JSONObject(v[1]->first), build(v[1]->second, s), JSONObject(v[0]->first), build(v[0]->second, s)});
        return JSONObject({JSONObject(v[2]->first), build(v[2]->second, s), JSONObject(v[0]->first), build(v[0]->second, s), JSONObject(v[1]->first), build(v[1]->second, s)});
      }
      JSONObject x; if (s.chance(1, 3)) x = "text"; else if (s.chance(1, 2)) x = JSONObject::Object();
      if (v.empty()) { x = JSONObject::Object(); return x; }
      bool rev = s.chance(1, 2);
      for (size_t q = 0; q < v.size(); ++q) {
        const auto& e = *v[rev ? v.size() - 1 - q : q]; bool z = e.first.find('\0') != std::string::npos;
        switch (s.below(4)) { case 0: x[e.first] = build(e.second, s); break; case 1: if (z) x[e.first] = build(e.second, s); else x[e.first.c_str()] = build(e.second, s); break; case 2: x.at(e.first) = build(e.second, s); break; default: { JSONObject c = build(e.second, s); x[e.first] = c; } }
      }
      return x;
    }
  }
}

// ---- an independent reader -------------------------------------------------
// Three-valued: strict JSON (value filled), structurally broken, or neither (spellings the loader is free to accept).
struct Rd {
  const std::string& t; size_t p = 0; bool loose = false, bad = false; int maxd = 0;
  explicit Rd(const std::string& x) : t(x) {}
  int at() const { return p < t.size() ? (unsigned char)t[p] : -1; }
  void ws() {
    while (p < t.size()) { char c = t[p]; if (c == ' ' || c == '\n' || c == '\t' || c == '\r') ++p; else if (c == '\v' || c == '\f') { loose = true; ++p; } else break; }
    if (p < t.size() && t[p] == 0) loose = true;
  }
  bool lit(const char* l) { size_t n = strlen(l); if (t.compare(p, n, l) == 0) { p += n; return true; } bad = true; return false; }
  std::string str() {
    std::string r; ++p;
    for (;; ++p) {
      if (p >= t.size()) { bad = true; return r; }
      char c = t[p];
      if (c == '"') { ++p; return r; }
      if (c != '\\') { r += c; continue; }
      ++p; if (p >= t.size()) { bad = true; return r; }
      switch (t[p]) {
        case '"': r += '"'; break; case '\\': r += '\\'; break; case '/': r += '/'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
        case 'u': { r += "\\u"; for (int i = 1; i <= 4; ++i) { if (p + i >= t.size() || !isxdigit((unsigned char)t[p + i])) { bad = true; return r; } r += t[p + i]; } p += 4; break; }
        default: loose = true;
      }
    }
  }
  J num() {
    J j; size_t b = p; bool strict = true, fl = false;
    if (at() == '-') ++p;
    if (at() == '0') ++p; else if (at() >= '1' && at() <= '9') while (isdigit(at())) ++p; else strict = false;
    if (at() == '.') { fl = true; ++p; if (!isdigit(at())) strict = false; while (isdigit(at())) ++p; }
    if (at() == 'e' || at() == 'E') { fl = true; ++p; if (at() == '+' || at() == '-') ++p; if (!isdigit(at())) strict = false; while (isdigit(at())) ++p; }
    int c = at(); bool term = c == -1 || isspace(c) || c == ',' || c == ']' || c == '}' || c == 0;
    if (c == 0) loose = true;
    if (!term || !strict) {
      loose = true;
      // swallow the rest of the token; a character that can not belong to a number breaks the document
      while (p < t.size()) { int d = at(); if (isdigit(d) || d == '-' || d == '+' || d == '.' || d == 'e' || d == 'E') ++p; else break; }
      c = at(); if (!(c == -1 || isspace(c) || c == ',' || c == ']' || c == '}' || c == 0)) bad = true;
      // misplaced signs, a second point, a mantissa without a digit, a broken exponent
      std::string x = t.substr(b, p - b); size_t e = x.find_first_of("eE"); std::string m = x.substr(0, e);
      if (m.find('-', 1) != std::string::npos || m.find('+') != std::string::npos || std::count(m.begin(), m.end(), '.') > 1 || m.find_first_of("0123456789") == std::string::npos) bad = true;
      if (e != std::string::npos) { std::string q = x.substr(e + 1); if (!q.empty() && (q[0] == '+' || q[0] == '-')) q.erase(0, 1); if (q.empty() || q.find_first_not_of("0123456789") != std::string::npos) bad = true; }
      return j;
    }
    std::string x = t.substr(b, p - b);
    if (fl) { j.t = Ty::Float; j.f = strtod(x.c_str(), nullptr); if (std::isinf(j.f)) loose = true; }
    else { j.t = Ty::Integral; errno = 0; long long v = strtoll(x.c_str(), nullptr, 10); if (errno || v > 2147483647ll || v < -2147483648ll) loose = true; j.i = (int)v; }
    return j;
  }
  J val(int d) {
    J j; ws(); if (d > maxd) maxd = d; if (bad || d > 1200) { return j; }
    switch (at()) {
      case '[': {
        j.t = Ty::Array; ++p; ws(); if (at() == ']') { ++p; return j; }
        for (;;) { j.a.push_back(val(d + 1)); if (bad) return j; ws(); if (at() == ',') { ++p; continue; } if (at() == ']') { ++p; return j; } bad = true; return j; }
      }
      case '{': {
        j.t = Ty::Object; ++p; ws(); if (at() == '}') { ++p; return j; }
        for (;;) {
          ws(); std::string k; if (at() == '"') k = str(); else { bad = true; return j; }
          if (bad) return j; ws(); if (at() != ':') { bad = true; return j; } ++p;
          J v = val(d + 1); if (bad) return j; j.o[k] = v; ws(); if (at() == ',') { ++p; continue; } if (at() == '}') { ++p; return j; } bad = true; return j;
        }
      }
      case '"': j.t = Ty::String; j.s = str(); return j;
      case 't': j.t = Ty::Boolean; j.b = true; lit("true"); return j;
      case 'f': j.t = Ty::Boolean; lit("false"); return j;
      case 'n': lit("null"); return j;
      default: if (at() == '-' || isdigit(at())) return num(); bad = true; return j;
    }
  }
  J doc() { J j = val(0); if (!bad) { ws(); if (p < t.size()) bad = true; } return j; }
};
inline bool same(const J& a, const J& b, FT ft) {
  if (a.t != b.t) return false;
  switch (a.t) { case Ty::Null: return true; case Ty::Boolean: return a.b == b.b; case Ty::Integral: return a.i == b.i; case Ty::Float: return feq(a.f, b.f, ft); case Ty::String: return a.s == b.s;
    case Ty::Array: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); ++i) if (!same(a.a[i], b.a[i], ft)) return false; return true;
    default: if (a.o.size() != b.o.size()) return false; for (auto x = a.o.begin(), y = b.o.begin(); x != a.o.end(); ++x, ++y) if (x->first != y->first || !same(x->second, y->second, ft)) return false; return true; }
}

// ---- writing a value in one of its JSON spellings ---------------------------
inline std::string wsp(vf::Src& s) { static const char* W[] = {"", "", " ", "\n", "\t", "\r\n", "   ", " \t\n\r "}; return W[s.below(8)]; }
inline std::string spell_str(const std::string& x, vf::Src& s) {
  std::string r = "\"";
  for (char c : x) switch (c) {
    case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; case '/': r += s.chance(1, 2) ? "/" : "\\/"; break;
    case '\b': r += s.chance(1, 2) ? "\\b" : "\b"; break; case '\f': r += "\\f"; break; case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += s.chance(3, 4) ? "\\t" : "\t"; break; default: r += c; }
  return r + "\"";
}
inline std::string digits(vf::Src& s, int max, bool lead0) { int n = 1 + (int)s.below(max); std::string r; for (int i = 0; i < n; ++i) r += (char)('0' + s.below(10)); if (!lead0) { while (r.size() > 1 && r[0] == '0') r.erase(0, 1); } return r; }
inline std::string spell(J& j, vf::Src& s) {  // may refine j.f to the denoted value
  switch (j.t) {
    case Ty::Null: return "null"; case Ty::Boolean: return j.b ? "true" : "false"; case Ty::Integral: return j.i == 0 && s.chance(1, 6) ? "-0" : std::to_string(j.i);
    case Ty::Float: {
      std::string r = s.chance(1, 3) ? "-" : ""; r += digits(s, s.chance(1, 6) ? 17 : 5, false); bool fr = s.chance(2, 3); if (fr) r += "." + digits(s, s.chance(1, 6) ? 17 : 6, true);
      if (!fr || s.chance(1, 2)) { r += s.chance(1, 2) ? "e" : "E"; int k = (int)s.below(3); bool big = s.chance(1, 8); r += k == 0 ? "" : k == 1 ? "+" : "-"; std::string e = std::to_string(s.below(big ? 290 : 12)); if (s.chance(1, 8)) e = "0" + e; r += e; }
      j.f = strtod(r.c_str(), nullptr); return r;
    }
    case Ty::String: return spell_str(j.s, s);
    case Ty::Array: { std::string r = "[" + wsp(s); bool f = true; for (auto& e : j.a) { if (!f) r += "," + wsp(s); f = false; r += spell(e, s) + wsp(s); } return r + "]"; }
    default: {
      std::string r = "{" + wsp(s); bool f = true; std::vector<std::pair<const std::string, J>*> v; for (auto& e : j.o) v.push_back(&e);
      if (s.chance(1, 2)) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.below(i)]);
      for (auto e : v) {
        if (!f) r += "," + wsp(s); f = false;
        if (s.chance(1, 30)) { J tmp; tmp.t = Ty::Integral; tmp.i = 1; r += spell_str(e->first, s) + wsp(s) + ":" + wsp(s) + "1" + wsp(s) + "," + wsp(s); }  // overridden by the later one
        std::string k = spell_str(e->first, s); r += k + wsp(s) + ":" + wsp(s) + spell(e->second, s) + wsp(s);
      }
      return r + "}";
    }
  }
}
}  // namespace jm
#endif
