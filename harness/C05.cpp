// Vector text form: reading back what was written gives an equal Vector; malformed text is rejected.
#include <cmath>
#include <iomanip>
#include <sstream>
#include "containers/Vector.h"
#include "elems.h"
namespace {
using cuhksz::Vector;
template <class T> struct G;
template <> struct G<int> { static int go(vf::Src& s) { return (int)s.range(-2147483647 - 1, 2147483647); } };
template <> struct G<long long> { static long long go(vf::Src& s) { return s.range(-9223372036854775807ll - 1, 9223372036854775807ll); } };
template <> struct G<unsigned> { static unsigned go(vf::Src& s) { return (unsigned)s.range(0, 4294967295ll); } };
template <> struct G<short> { static short go(vf::Src& s) { return (short)s.range(-32768, 32767); } };
template <> struct G<bool> { static bool go(vf::Src& s) { return s.chance(1, 2); } };
// doubles with at most six significant digits survive the default stream precision
template <> struct G<double> { static double go(vf::Src& s) { long long m = s.range(-999999, 999999); int e = (int)s.uni(-8, 8); return std::strtod((std::to_string(m) + "e" + std::to_string(e)).c_str(), nullptr); } };
template <> struct G<char> { static char go(vf::Src& s) { return "abcxyzABC_#*"[s.below(12)]; } };
template <class T> struct G<Vector<T>> { static Vector<T> go(vf::Src& s) { Vector<T> v; int n = s.size(s.below(40) == 39 ? 90 : 6); for (int i = 0; i < n; ++i) v.push(G<T>::go(s)); return v; } };

template <class T> bool eq1(const T& a, const T& b) { return a == b; }
template <class T> bool eq1(const Vector<T>& a, const Vector<T>& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!eq1(a[i], b[i])) return false; return true; }
template <class T> bool eqv(const Vector<T>& a, const Vector<T>& b) { return eq1(a, b); }

const char* WS[] = {" ", "\n", "\t", "  ", " \r\n "};
std::string ws(vf::Src& s) { return s.chance(1, 2) ? "" : WS[s.below(5)]; }

template <class T> void round(vf::Src& s, const char* ty) {
  Vector<T> v; int n = s.size(s.chance(1, 30) ? 800 : 40); for (int i = 0; i < n; ++i) v.push(G<T>::go(s)); if (s.below(200) == 199 && n) { int more = (int)s.uni(1000, 12000); for (int i = 0; i < more; ++i) { T e = v[i % n]; v.push(e); } n += more; vf::note("long round trips"); }
  std::ostringstream o; std::ostream& r = (o << v);
  VF_CHECK("C05:round-trip", &r == (std::ostream*)&o, "operator<< returns another stream");
  // several values in one stream, with other text after them
  std::string rest = s.chance(1, 2) ? std::string("77 tail") : std::string();
  bool twice = s.chance(1, 3);
  std::istringstream in(o.str() + (twice ? ws(s) + o.str() : "") + rest);
  Vector<T> w; int junk = s.size(5); for (int i = 0; i < junk; ++i) w.push(G<T>::go(s));
  in >> w;
  VF_CHECK("C05:round-trip", eqv(v, w), ty << ": wrote " << vf::quote(o.str()) << ", read back " << vf::quote(vf::show(w)));
  VF_CHECK("C05:round-trip", !in.fail(), ty << ": stream is in a failed state after reading " << vf::quote(o.str()));
  if (twice) { Vector<T> u; in >> u; VF_CHECK("C05:round-trip", eqv(v, u), ty << ": second value of the stream reads " << vf::quote(vf::show(u)) << " instead of " << vf::quote(o.str())); }
  if (!rest.empty()) { int x = 0; std::string t; in >> x >> t; VF_CHECK("C05:round-trip", x == 77 && t == "tail", ty << ": text after the closing brace was consumed, " << vf::quote(o.str())); }
  vf::note("round trips"); vf::sig(o.str()); if (n) vf::nontrivial();
  vf::sample([&] { return std::string(ty) + " " + o.str(); });
}
// the formatting chosen for the stream holds for every element
void formatted(vf::Src& s) {
  std::ostringstream o; std::istringstream in; int n = s.size(s.chance(1, 20) ? 300 : 12); bool pre = s.chance(1, 3); if (pre) o << "head ";
  if (s.chance(2, 3)) {
    Vector<double> v, w; int how = (int)s.below(4); for (int i = 0; i < n; ++i) { double d; switch (s.below(5)) { case 0: d = s.unit(); break; case 1: d = (double)s.range(-9223372036854775807ll, 9223372036854775807ll); break; case 2: d = 1.0 / (double)(1 + s.below(1000)); break; case 3: d = s.real(-1, 1) * std::pow(10.0, (double)s.uni(-200, 200)); break; default: d = G<double>::go(s); } v.push(d); }
    o.precision(17); if (how == 1) o << std::scientific; if (how == 2) o << std::showpos; if (how == 3) o << std::uppercase;
    o << v; in.str(o.str()); if (pre) { std::string h; in >> h; } in >> w; VF_CHECK("C05:format", eqv(v, w) && !in.fail(), "seventeen digits: wrote " << vf::quote(o.str()) << ", read back a different vector of " << w.size()); VF_CHECK("C05:format", o.precision() == 17 && ((o.flags() & std::ios::scientific) != 0) == (how == 1), "writing changes the format of the stream");
  } else {
    Vector<Vector<unsigned>> v, w; for (int i = 0; i < n; ++i) v.push(G<Vector<unsigned>>::go(s)); if (s.chance(1, 2)) { o << std::hex; in >> std::hex; } else { o << std::oct; in >> std::oct; } if (s.chance(1, 3)) o << std::showbase; o << v; in.str(o.str()); if (pre) { std::string h; in >> h; } in >> w; VF_CHECK("C05:format", eqv(v, w) && !in.fail(), "another base: wrote " << vf::quote(o.str()) << ", read back a different vector of " << w.size());
  }
  vf::note("formatted round trips"); vf::sig(o.str()); if (n > 1) vf::nontrivial();
}
// any spacing between the tokens is accepted
void spaced(vf::Src& s) {
  int n = s.size(20); Vector<int> v; std::string t = ws(s) + "{" + ws(s);
  for (int i = 0; i < n; ++i) { int x = G<int>::go(s); v.push(x); if (i) t += "," + ws(s); t += std::to_string(x) + ws(s); }
  t += "}";
  std::istringstream in(t); Vector<int> w; in >> w;
  VF_CHECK("C05:spacing", eqv(v, w), "read " << vf::quote(t) << " as " << vf::quote(vf::show(w)));
  vf::note("spaced reads"); vf::sig(t); if (n) vf::nontrivial();
}
void malformed(vf::Src& s) {
  // a well-formed text, damaged so that it can not be the text of a Vector<int>
  int n = (int)s.uni(0, 12); if (s.chance(1, 6)) n = s.size(s.chance(1, 5) ? 1500 : 200); std::vector<std::string> e; for (int i = 0; i < n; ++i) e.push_back(std::to_string(G<int>::go(s)));
  auto join = [&](const std::vector<std::string>& x) { std::string t; for (size_t i = 0; i < x.size(); ++i) t += (i ? ", " : "") + x[i]; return t; };
  std::string t;
  switch (s.below(9)) {
    case 0: t = join(e) + "}"; break;                                   // no opening brace
    case 1: t = "{" + join(e); break;                                   // no closing brace
    case 2: if (!n) { e.push_back("1"); } e[s.below(e.size())] = s.pick(std::vector<std::string>{"x", "abc", "-", "+", "\"1\"", "{}", "99999999999", "-99999999999", "nan"}); t = "{" + join(e) + "}"; break;
    case 3: { while (e.size() < 2) e.push_back("5"); size_t k = 1 + s.below(e.size() - 1); t = "{"; for (size_t i = 0; i < e.size(); ++i) t += (i ? (i == k ? s.pick(std::vector<std::string>{" ", ";", " : ", "|", "]", "."}) : ", ") : "") + e[i]; t += "}"; break; }
    case 4: t = ""; break;
    case 5: t = s.pick(std::vector<std::string>{"[1, 2]", "(1)", "1, 2", "}", "x{1}", "<1>"}); break;
    case 6: { if (!n) e.push_back("3"); t = "{" + join(e) + ",}"; break; }  // dangling comma
    case 7: { if (!n) e.push_back("3"); t = "{," + join(e) + "}"; break; }
    default: { if (!n) e.push_back("3"); t = "{" + join(e) + s.pick(std::vector<std::string>{"]", ")", " x}", ", ", ",", " "}); break; }
  }
  vf::must_reject("C05:malformed-accepted", [t] { std::istringstream in(t); Vector<int> w; in >> w; }, [&] { return "Vector<int> << " + vf::quote(t); });
  vf::note("malformed texts rejected"); vf::sig(t); vf::nontrivial();
  vf::sample([&] { return "rejected " + vf::quote(t); });
}
// a reader of the text form, independent of the library's: the value at the start of the text, or none
struct Ref {
  const std::string& t; size_t p = 0; explicit Ref(const std::string& x) : t(x) {}
  int nx() { while (p < t.size() && isspace((unsigned char)t[p])) ++p; return p < t.size() ? (unsigned char)t[p] : -1; }
  bool get(int& v) {
    nx(); size_t b = p; if (p < t.size() && (t[p] == '-' || t[p] == '+')) ++p; size_t d = p; while (p < t.size() && isdigit((unsigned char)t[p])) ++p;
    if (d == p) return false; __int128 x = 0; for (size_t k = d; k < p; ++k) { x = x * 10 + (t[k] - '0'); if (x > (__int128)1 << 40) return false; } if (t[b] == '-') x = -x;
    if (x > 2147483647 || x < -2147483648ll) return false; v = (int)x; return true;
  }
  template <class T> bool get(std::vector<T>& v) {
    v.clear(); if (nx() != '{') return false; ++p; if (nx() == '}') { ++p; return true; }
    for (;;) { T e; if (!get(e)) return false; v.push_back(e); int c = nx(); if (c == '}') { ++p; return true; } if (c != ',') return false; ++p; }
  }
};
bool same(int a, int b) { return a == b; }
template <class T, class U> bool same(const Vector<T>& a, const std::vector<U>& b) { if (a.size() != (int)b.size()) return false; for (int i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
template <class V, class R> void judge(const std::string& t, const char* ty) {
  Ref r(t); R want; bool ok = r.get(want); V got; got = V(2); std::string rest;
  vf::Outcome o = vf::observe([&] { std::istringstream in(t); in >> got; std::getline(in, rest, '\0'); });
  VF_CHECK("C05:hostile", !o.threw, "exception " << o.what << " for " << vf::quote(t));
  if (o.exited) VF_CHECK("C05:hostile", o.status != 0 && !o.diag.empty(), "exit " << o.status << " diag '" << o.diag << "' for " << vf::quote(t));
  if (!ok) VF_CHECK("C05:malformed-accepted", o.exited, ty << " accepted malformed " << vf::quote(t) << " as " << vf::quote(vf::show(got)));
  else {
    VF_CHECK("C05:well-formed-rejected", !o.exited, ty << " rejected " << vf::quote(t) << ": " << o.diag);
    VF_CHECK("C05:read", same(got, want), ty << " read " << vf::quote(t) << " as " << vf::quote(vf::show(got)));
    if (t.find('\0') == std::string::npos) VF_CHECK("C05:read", rest == t.substr(r.p), ty << " read " << vf::quote(t) << " and left " << vf::quote(rest) << ", expected " << vf::quote(t.substr(r.p)));
  }
  vf::note(o.exited ? "hostile texts rejected" : "hostile texts accepted"); if (ok) vf::nontrivial();
}
// arbitrary, damaged and odd text: a value or a rejection, always terminating and memory safe
void hostile(vf::Src& s) {
  std::string t;
  switch (s.below(5)) {
    case 0: t = s.bytes(40); break; case 1: t = "{" + s.str(40, "0123456789,, {}-x\n"); break;
    case 2: { int n = (int)s.below(14); static const char* K[] = {"{", "}", ",", "{}", "{1}", "12", "-3", "+4", " ", "\n", "2147483647", "2147483648", "-2147483648", "0", "007", "-", "x", "{1, 2}", ", "}; t = s.chance(3, 4) ? "{" : ""; for (int i = 0; i < n; ++i) t += K[s.below(19)]; break; }
    default: {
      std::ostringstream o; if (s.chance(1, 2)) o << G<Vector<Vector<int>>>::go(s); else o << G<Vector<int>>::go(s); t = o.str(); int n = (int)s.below(3);
      for (int i = 0; i < n && !t.empty(); ++i) { size_t p = s.below(t.size()); switch (s.below(4)) { case 0: t.erase(p, 1 + s.below(3)); break; case 1: t.insert(p, 1, "{},- 1x\n"[s.below(8)]); break; case 2: t[p] = "{},- 1x."[s.below(8)]; break; default: t.resize(p); } }
    }
  }
  vf::sig(t); vf::sample([&] { return "text " + vf::quote(t); });
  judge<Vector<int>, std::vector<int>>(t, "Vector<int>"); judge<Vector<Vector<int>>, std::vector<std::vector<int>>>(t, "Vector<Vector<int>>"); if (s.chance(1, 2)) judge<Vector<Vector<int>>, std::vector<std::vector<int>>>("{" + t + "}", "Vector<Vector<int>>");
}
}  // namespace
VF_HARNESS(C05) {
  switch (s.below(vf::mt() ? 10 : 15)) {
    case 0: round<int>(s, "int"); break; case 1: round<long long>(s, "long long"); break; case 2: round<unsigned>(s, "unsigned"); break;
    case 3: round<short>(s, "short"); break; case 4: round<double>(s, "double"); break; case 5: round<Vector<int>>(s, "Vector<int>"); break;
    case 6: round<Vector<Vector<long long>>>(s, "Vector<Vector<long long>>"); break; case 7: spaced(s); break;
    case 8: round<char>(s, "char"); break;
    case 9: formatted(s); break; case 10: case 11: malformed(s); break; default: hostile(s);
  }
}
