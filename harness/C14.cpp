// BigNum: exact signed arithmetic and comparison for every result that fits its capacity.
#include "math_utils/BigNum.h"
#include "vf.h"
#include <memory>
namespace {
// independent reference: sign and magnitude in base 10000
struct R {
  bool neg = false; std::vector<uint32_t> d;
  void trim() { while (!d.empty() && !d.back()) d.pop_back(); if (d.empty()) neg = false; }
  static R of(const std::string& t) { R r; size_t b = t[0] == '-'; r.neg = b; for (size_t e = t.size(); e > b;) { size_t st = e >= b + 4 ? e - 4 : b; uint32_t v = 0; for (size_t i = st; i < e; ++i) v = v * 10 + (t[i] - '0'); r.d.push_back(v); e = st; } r.trim(); return r; }
  static R of(long long x) { return of(std::to_string(x)); }
  std::string str() const { if (d.empty()) return "0"; std::string r = neg ? "-" : ""; char b[8]; snprintf(b, 8, "%u", d.back()); r += b; for (size_t i = d.size() - 1; i-- > 0;) { snprintf(b, 8, "%04u", d[i]); r += b; } return r; }
  int digits() const { std::string t = str(); return (int)t.size() - (t[0] == '-') - (t == "0"); }
  static int cm(const R& a, const R& b) { if (a.d.size() != b.d.size()) return a.d.size() < b.d.size() ? -1 : 1; for (size_t i = a.d.size(); i-- > 0;) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1; return 0; }
  static int cmp(const R& a, const R& b) { if (a.neg != b.neg) return a.neg ? -1 : 1; int c = cm(a, b); return a.neg ? -c : c; }
  static R add(const R& a, const R& b) {
    R r; if (a.neg == b.neg) { uint32_t c = 0; for (size_t i = 0; i < std::max(a.d.size(), b.d.size()) || c; ++i) { uint32_t v = c + (i < a.d.size() ? a.d[i] : 0) + (i < b.d.size() ? b.d[i] : 0); r.d.push_back(v % 10000); c = v / 10000; } r.neg = a.neg; r.trim(); return r; }
    const R& x = cm(a, b) >= 0 ? a : b; const R& y = cm(a, b) >= 0 ? b : a; int32_t c = 0; for (size_t i = 0; i < x.d.size(); ++i) { int32_t v = (int32_t)x.d[i] - (i < y.d.size() ? (int32_t)y.d[i] : 0) - c; c = v < 0; if (v < 0) v += 10000; r.d.push_back(v); } r.neg = x.neg; r.trim(); return r;
  }
  R operator-() const { R r = *this; if (!r.d.empty()) r.neg = !r.neg; return r; }
  static R sub(const R& a, const R& b) { return add(a, -b); }
  static R mul(const R& a, const R& b) { R r; r.d.assign(a.d.size() + b.d.size() + 1, 0); for (size_t i = 0; i < a.d.size(); ++i) { uint64_t c = 0; for (size_t j = 0; j < b.d.size() || c; ++j) { uint64_t v = r.d[i + j] + c + (j < b.d.size() ? (uint64_t)a.d[i] * b.d[j] : 0); r.d[i + j] = v % 10000; c = v / 10000; } } r.neg = a.neg != b.neg; r.trim(); return r; }
};
std::string num(vf::Src& s, int maxd) {
  std::string t; int n;
  switch (s.below(8)) {
    case 0: t = "0"; break;
    case 1: n = 1 + (int)s.below(maxd); t = "1" + std::string(n - 1, '0'); break;
    case 2: n = 1 + (int)s.below(maxd); t = std::string(n, '9'); break;
    case 3: { long long x = s.range(-9223372036854775807ll - 1, 9223372036854775807ll); t = std::to_string(x < 0 ? 0 - (unsigned long long)x : x); if ((int)t.size() > maxd) t.resize(maxd); break; }
    case 4: n = 1 + (int)s.below(maxd); for (int i = 0; i < n; ++i) t += (char)("0099189"[s.below(7)]); break;
    default: n = 1 + (int)s.below(std::min(maxd, s.chance(1, 4) ? maxd : 12)); for (int i = 0; i < n; ++i) t += (char)('0' + s.below(10));
  }
  size_t z = t.find_first_not_of('0'); t = z == std::string::npos ? "0" : t.substr(z);
  if (t == "0" && s.chance(1, 6)) return maxd > 2 && s.chance(1, 2) ? "-00" : "-0";
  return (t != "0" && s.chance(1, 2) ? "-" : "") + t;
}
template <int M> void same(const cuhksz::BigNum<M>& g, const R& w, const std::string& what) {
  std::string t = g.toString(), u = w.str();
  VF_CHECK("C14:value", t == u, what << " is " << t << ", expected " << u);
}
template <int M> void order(const cuhksz::BigNum<M>& a, const cuhksz::BigNum<M>& b, const R& x, const R& y) {
  int c = R::cmp(x, y); std::string w = x.str() + " ? " + y.str();
  VF_CHECK("C14:compare", (a < b) == (c < 0), "operator< of " << w); VF_CHECK("C14:compare", (a <= b) == (c <= 0), "operator<= of " << w); VF_CHECK("C14:compare", (a > b) == (c > 0), "operator> of " << w); VF_CHECK("C14:compare", (a >= b) == (c >= 0), "operator>= of " << w); VF_CHECK("C14:compare", (a == b) == (c == 0), "operator== of " << w); VF_CHECK("C14:compare", (a != b) == (c != 0), "operator!= of " << w);
}
template <int M> void history(vf::Src& s) {
  typedef cuhksz::BigNum<M> B; const int K = 3; B v[K]; R m[K]; std::string log; int n = 1 + s.size(30), done = 0;
  for (int i = 0; i < K; ++i) { std::string t = num(s, M); m[i] = R::of(t); v[i] = B(t); log += " v" + std::to_string(i) + "=" + t; same(v[i], m[i], "BigNum(\"" + t + "\")"); }
  auto fits = [](const R& r) { return r.digits() <= M; };
  for (int st = 0; st < n && !s.exhausted(); ++st) {
    int i = (int)s.below(K), j = (int)s.below(K), k = (int)s.below(K); int op = (int)s.below(18); R r; std::string what; vf::sig((uint64_t)op * 64 + i * 16 + j * 4 + k);
    long long small = s.chance(1, 4) ? s.range(-9223372036854775807ll - 1, 9223372036854775807ll) : s.range(-1000, 1000); R sm = R::of(small); bool smfit = fits(sm);
    switch (op) {
      case 0: r = R::add(m[i], m[j]); if (!fits(r)) break; v[k] = v[i] + v[j]; what = m[i].str() + " + " + m[j].str(); m[k] = r; break;
      case 1: r = R::sub(m[i], m[j]); if (!fits(r)) break; v[k] = v[i] - v[j]; what = m[i].str() + " - " + m[j].str(); m[k] = r; break;
      case 2: r = R::mul(m[i], m[j]); if (!fits(r)) break; v[k] = v[i] * v[j]; what = m[i].str() + " * " + m[j].str(); m[k] = r; break;
      case 3: r = R::add(m[k], m[j]); if (!fits(r)) break; v[k] += v[j]; what = m[k].str() + " += " + m[j].str(); m[k] = r; break;
      case 4: r = R::sub(m[k], m[j]); if (!fits(r)) break; v[k] -= v[j]; what = m[k].str() + " -= " + m[j].str(); m[k] = r; break;
      case 5: r = R::mul(m[k], m[j]); if (!fits(r)) break; v[k] *= v[j]; what = m[k].str() + " *= " + m[j].str(); m[k] = r; break;
      case 6: r = R::add(m[i], sm); if (!fits(r) || !smfit) break; if (s.chance(1, 2)) { v[k] = v[i] + (int64_t)small; what = m[i].str() + " + int " + sm.str(); m[k] = r; } else { what = m[i].str() + " += int " + sm.str(); v[i] += (int64_t)small; m[i] = r; k = i; } break;
      case 7: r = R::sub(m[i], sm); if (!fits(r) || !smfit) break; if (s.chance(1, 2)) { v[k] = v[i] - (int64_t)small; what = m[i].str() + " - int " + sm.str(); m[k] = r; } else { what = m[i].str() + " -= int " + sm.str(); v[i] -= (int64_t)small; m[i] = r; k = i; } break;
      case 8: r = R::mul(m[i], sm); if (!fits(r) || !smfit) break; if (s.chance(1, 2)) { v[k] = v[i] * (int64_t)small; what = m[i].str() + " * int " + sm.str(); m[k] = r; } else { what = m[i].str() + " *= int " + sm.str(); v[i] *= (int64_t)small; m[i] = r; k = i; } break;
      case 9: what = "-(" + m[i].str() + ")"; v[k] = -v[i]; m[k] = -m[i]; break;
      case 10: { r = R::add(m[k], R::of(1)); if (!fits(r)) break; what = "++ of " + m[k].str(); if (s.chance(1, 2)) { B& q = ++v[k]; VF_CHECK("C14:value", &q == &v[k], "prefix ++ returns another object"); } else { B old = v[k]++; same(old, m[k], "postfix ++ result"); } m[k] = r; break; }
      case 11: { r = R::sub(m[k], R::of(1)); if (!fits(r)) break; what = "-- of " + m[k].str(); if (s.chance(1, 2)) { B& q = --v[k]; VF_CHECK("C14:value", &q == &v[k], "prefix -- returns another object"); } else { B old = v[k]--; same(old, m[k], "postfix -- result"); } m[k] = r; break; }
      case 12: { what = "abs of " + m[i].str(); r = m[i]; r.neg = false; if (s.chance(1, 2)) v[k] = v[i].abs(); else v[k] = abs(v[i]); if (k != i) same(v[i], m[i], "operand of abs"); m[k] = r; break; }
      case 13: what = "copy of " + m[i].str(); v[k] = v[i]; m[k] = m[i]; break;
      case 14: { B c(v[i]); what = "copy of " + m[i].str(); c += 0; same(c, m[i], what); v[k] = c; m[k] = m[i]; break; }
      case 15: if (!smfit) break; what = "BigNum(" + sm.str() + ")"; v[k] = (int64_t)small; m[k] = sm; break;
      case 16: { std::string t = num(s, M); what = "BigNum(\"" + t + "\")"; if (t.size() + 3 < (size_t)M && s.chance(1, 4)) t.insert(t[0] == '-', "00"); v[k] = B(t); m[k] = R::of(t); break; }
      default: { std::ostringstream o; o << v[i]; VF_CHECK("C14:text", o.str() == m[i].str() && toString(v[i]) == m[i].str(), "text of " << m[i].str() << " is " << o.str()); const B& c = v[i]; std::string u = m[i].str(); for (int q = 0; q < m[i].digits(); ++q) VF_CHECK("C14:digits", c[q] == u[u.size() - 1 - q] - '0', "digit " << q << " of " << u << " is " << c[q]); what = "text"; k = i; }
    }
    if (what.empty()) { vf::note("skipped: result would not fit"); continue; }
    log += "; " + what; if (log.size() > 3000) log = "..." + log.substr(log.size() - 2000);
    for (int q = 0; q < K; ++q) same(v[q], m[q], "after " + log + ": v" + std::to_string(q));
    order(v[i], v[j], m[i], m[j]); if (s.chance(1, 3)) { order(v[k], v[k], m[k], m[k]); if (smfit) { VF_CHECK("C14:compare", (v[k] == (int64_t)small) == (R::cmp(m[k], sm) == 0) && (v[k] < (int64_t)small) == (R::cmp(m[k], sm) < 0), "comparison of " << m[k].str() << " with int " << small); } }
    ++done; vf::note("operations compared");
    vf::sig(m[k].str());
  }
  if (done > 1) vf::nontrivial(); vf::sample([&] { return "BigNum<" + std::to_string(M) + ">" + log; });
}
// Numbers whose digit count does not fit in a short.
void once() {
  typedef cuhksz::BigNum<40000> B; auto big = [](int n, int k) { std::string t; for (int i = 0; i < n; ++i) t += (char)('0' + (i * k + i / 7 + 1) % 10); if (t[0] == '0') t[0] = '8'; return t; };
  for (int n : {200, 33000, 39990}) for (int sa = 0; sa < 2; ++sa) for (int sb = 0; sb < 2; ++sb) {
    std::string ta = (sa ? "-" : "") + big(n, 3), tb = (sb ? "-" : "") + big(n - 3, 7); R x = R::of(ta), y = R::of(tb); std::string w = " with " + std::to_string(n) + " digits"; std::unique_ptr<B> a(new B(ta)), b(new B(tb)), c(new B);
    auto eq = [&](const B& g, const R& r, const char* what) { VF_CHECK("C14:value", g.toString() == r.str(), what << w << " is wrong"); }; eq(*a, x, "text"); eq(*b, y, "text");
    *c = *a + *b; eq(*c, R::add(x, y), "sum"); *c = *a - *b; eq(*c, R::sub(x, y), "difference"); *c = *b; *c -= *a; eq(*c, R::sub(y, x), "-="); *c += *a; eq(*c, y, "+="); *c = -*a; eq(*c, -x, "negation"); ++*c; eq(*c, R::add(-x, R::of(1)), "++"); --*c; eq(*c, -x, "--"); *c = *a * (int64_t)-7; eq(*c, R::mul(x, R::of(-7)), "product with an int"); *c = B(-7) * *a; eq(*c, R::mul(x, R::of(-7)), "product of an int with a number"); *c = -3; *c *= *b; eq(*c, R::mul(y, R::of(-3)), "*= by a number"); *c = a->abs(); R ab = x; ab.neg = false; eq(*c, ab, "abs"); order(*a, *b, x, y); order(*a, *a, x, x); order(*c, *a, ab, x);
    const B& k = *a; for (int q = 0; q < n; q += 97) VF_CHECK("C14:digits", k[q] == ta[ta.size() - 1 - q] - '0', "digit " << q << w); vf::note("large numbers compared");
  }
  { std::string t(33000, '9'); std::unique_ptr<B> a(new B(t)); ++*a; VF_CHECK("C14:value", a->toString() == "1" + std::string(33000, '0'), "++ of 33000 nines"); --*a; VF_CHECK("C14:value", a->toString() == t, "-- back to 33000 nines"); *a -= *a; VF_CHECK("C14:value", a->toString() == "0" && *a == B(0), "a number of 33000 digits minus itself"); }
  for (int n : {300, 4200}) { std::string t(n, '9'); std::unique_ptr<B> a(new B(t)), b(new B); *b = *a * *a; VF_CHECK("C14:value", b->toString() == std::string(n - 1, '9') + "8" + std::string(n - 1, '0') + "1", "square of " << n << " nines"); }
  { typedef cuhksz::BigNum<1200> C; std::string ta = big(500, 3), tb = "-" + big(600, 9); C a(ta), b(tb); VF_CHECK("C14:value", (a * b).toString() == R::mul(R::of(ta), R::of(tb)).str(), "product with 1100 digits"); a *= b; VF_CHECK("C14:value", a.toString() == R::mul(R::of(ta), R::of(tb)).str(), "*= with 1100 digits"); }
}
}  // namespace
VF_HARNESS2(C14, true, once) { switch (s.below(4)) { case 0: history<5>(s); break; case 1: history<22>(s); break; case 2: history<60>(s); break; default: history<300>(s); } }
