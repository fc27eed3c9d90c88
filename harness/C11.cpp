// URL encoding: exact per-byte text, exact inverse, safe on any text.
#include "network/network_functions.h"
#include "vf.h"
// Every string of up to two bytes and every spelling of every byte.
static void sweep() {
  const char* U = "0123456789ABCDEF"; auto enc = [&](unsigned char c) { std::string w; if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~') w += (char)c; else { w += '%'; w += U[c >> 4]; w += U[c & 15]; } return w; };
  auto one = [&](const std::string& d) { std::string w; for (unsigned char c : d) w += enc(c); std::string e = cuhksz::urlEncode(d); VF_CHECK("C11:encode", e == w, "urlEncode(" << vf::quote(d) << ") is " << vf::quote(e) << ", expected " << vf::quote(w)); std::string b = cuhksz::urlDecode(e); VF_CHECK("C11:round-trip", b == d, "urlDecode(urlEncode(" << vf::quote(d) << ")) is " << vf::quote(b)); vf::note("swept strings"); };
  one(""); for (int a = 0; a < 256; ++a) { one(std::string(1, (char)a)); for (int b = 0; b < 256; ++b) { std::string t(1, (char)a); t += (char)b; one(t); } }
  for (int a = 0; a < 256; ++a) for (const char* h : {"0123456789ABCDEF", "0123456789abcdef"}) for (const char* l : {"0123456789ABCDEF", "0123456789abcdef"}) for (const char* tail : {"", "a", "+", "%41"}) { std::string t = "x%"; t += h[a >> 4]; t += l[a & 15]; t += tail; std::string w = "x"; w += (char)a; w += *tail == '+' ? " " : *tail == '%' ? "A" : tail; std::string g = cuhksz::urlDecode(t); VF_CHECK("C11:decode", g == w, "urlDecode(" << vf::quote(t) << ") is " << vf::quote(g) << ", expected " << vf::quote(w)); vf::note("swept spellings"); }
  for (int a = 0; a < 256; ++a) if (a != '%' && a != '+') for (int n = 1; n < 5; ++n) { std::string t(n, (char)a), g = cuhksz::urlDecode(t); VF_CHECK("C11:decode", g == t, "urlDecode(" << vf::quote(t) << ") is " << vf::quote(g)); }
}
VF_HARNESS2(C11, true, sweep) {
  std::string d = s.chance(1, 3) ? s.bytes(s.chance(1, 20) ? 1500 : 80) : s.text(60), want; if (s.below(300) == 299 && !d.empty()) { std::string u = d; int n = (int)s.uni(1000, s.chance(1, 3) ? 140000 : 12000); while ((int)d.size() < n) { d += u; d += (char)d.size(); } vf::note("long strings"); }
  for (unsigned char c : d) { if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~') want += (char)c; else { want += '%'; want += "0123456789ABCDEF"[c >> 4]; want += "0123456789ABCDEF"[c & 15]; } }
  std::string e = cuhksz::urlEncode(d);
  VF_CHECK("C11:encode", e == want, "urlEncode(" << vf::quote(d) << ") is " << vf::quote(e) << ", expected " << vf::quote(want));
  std::string b = cuhksz::urlDecode(e);
  VF_CHECK("C11:round-trip", b == d, "urlDecode(urlEncode(" << vf::quote(d) << ")) is " << vf::quote(b));
  VF_CHECK("C11:round-trip", cuhksz::urlDecode(cuhksz::urlDecode(cuhksz::urlEncode(e))) == d, "twice encoded " << vf::quote(d));
  // any well-formed spelling: '+' is a space, %XX in either case, everything else is itself
  std::string t, w; int n = s.size(40);
  for (int i = 0; i < n; ++i) {
    unsigned char c = s.byte();
    switch (s.below(5)) {
      case 0: t += '+'; w += ' '; break;
      case 1: case 2: { const char* h = s.chance(1, 2) ? "0123456789ABCDEF" : "0123456789abcdef"; const char* g = s.chance(1, 2) ? "0123456789ABCDEF" : "0123456789abcdef"; t += '%'; t += h[c >> 4]; t += g[c & 15]; w += (char)c; break; }
      default: if (c == '%' || c == '+') c = 'x'; t += (char)c; w += (char)c;
    }
  }
  std::string g = cuhksz::urlDecode(t);
  VF_CHECK("C11:decode", g == w, "urlDecode(" << vf::quote(t) << ") is " << vf::quote(g) << ", expected " << vf::quote(w));
  // any text at all (truncated and malformed escapes): no fault, no growth, the rest is kept
  std::string head = "a%20b"; std::string junk = s.chance(1, 2) ? s.text(20) : t.substr(0, t.empty() ? 0 : s.below(t.size() + 1)) + s.pick(std::vector<std::string>{"%", "%4", "%G", "%%", "%4%", "100%", "%-1", "%zz", ""});
  std::string q = cuhksz::urlDecode(head + junk); VF_CHECK("C11:malformed", q.size() <= 3 + junk.size() && q.compare(0, 3, "a b") == 0, "urlDecode(" << vf::quote(head + junk) << ") is " << vf::quote(q));
  std::string r = cuhksz::urlDecode(junk); VF_CHECK("C11:malformed", q == "a b" + r, "urlDecode is not compositional: " << vf::quote(head + junk) << " gives " << vf::quote(q) << ", " << vf::quote(junk) << " gives " << vf::quote(r));
  vf::note("strings round-tripped"); vf::note("spellings decoded"); vf::note("malformed texts decoded"); vf::sig(d); vf::sig(t); if (!d.empty() || !t.empty()) vf::nontrivial(); vf::sample([&] { return vf::quote(d) + " -> " + vf::quote(e); });
}
