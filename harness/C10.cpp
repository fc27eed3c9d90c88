// Base64: RFC 4648 text, exact inverse, length parameter.
#include "base64/base64_functions.h"
#include "vf.h"
namespace {
std::string ref(const std::string& d, bool pad) {
  static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r; uint32_t acc = 0; int bits = 0;
  for (unsigned char c : d) { acc = (acc << 8) | c; bits += 8; while (bits >= 6) { bits -= 6; r += A[(acc >> bits) & 63]; } acc &= 0xffff; }
  if (bits) r += A[(acc << (6 - bits)) & 63];
  if (pad) while (r.size() % 4) r += '=';
  return r;
}
std::string data(vf::Src& s) {
  switch (s.below(6)) {
    case 0: { std::string r = s.text(40); int n = (int)s.below(4); for (int i = 0; i < n; ++i) r += '\0'; return r; }
    case 1: { std::string r; int n = s.size(60); char c = (char)s.byte(); r.assign(n, c); return r; }
    case 2: { static const std::string z("\0\0\1\xff", 4); return s.str(30, z); }
    case 3: { if (s.below(60) == 59) { std::string u = s.bytes(40), r; if (u.empty()) u = "x"; int n = (int)s.uni(1000, s.chance(1, 4) ? 140000 : 20000); while ((int)r.size() < n) { r += u; r += (char)r.size(); } r.resize(n); return r; } return s.bytes(s.chance(1, 20) ? 3000 : 200); }
    default: return s.text(60);
  }
}
}  // namespace
// Every string of up to two bytes, every pair of bytes in each place of three, every length up to 600, every requested length for short strings.
static void sweep() {
  auto one = [](const std::string& d) { std::string e = cuhksz::base64Encode(d), w = ref(d, true); VF_CHECK("C10:encode", e == w, "base64Encode(" << vf::quote(d) << ") is " << vf::quote(e) << ", RFC 4648 says " << vf::quote(w)); std::string b = cuhksz::base64Decode(e); VF_CHECK("C10:round-trip", b == d, "decode(encode(" << vf::quote(d) << ")) is " << vf::quote(b)); vf::note("swept strings"); };
  one(""); for (int a = 0; a < 256; ++a) { one(std::string(1, (char)a)); for (int b = 0; b < 256; ++b) { std::string t(1, (char)a); t += (char)b; one(t); one(t + (char)(a ^ b)); one((char)(a + b) + t); } }
  for (int n = 0; n <= 600; ++n) { std::string t; for (int i = 0; i < n; ++i) t += (char)(i * 37 + n); one(t); one(std::string(n, '\0')); one(std::string(n, '\xff')); }
  for (int n = 0; n < 24; ++n) { std::string t; for (int i = 0; i < n; ++i) t += (char)(i * 59 + n); std::string bare = ref(t, false); for (int k = 0; k < 80; ++k) { std::string p = cuhksz::base64Encode(t, k), w = k < (int)bare.size() ? "" : bare + std::string(k - bare.size(), '='); VF_CHECK("C10:length", p == w, "length " << k << " for " << vf::quote(t) << " gives " << vf::quote(p)); vf::note("swept lengths"); } }
}
VF_HARNESS2(C10, true, sweep) {
  std::string d = data(s), want = ref(d, true), bare = ref(d, false);
  std::string e = cuhksz::base64Encode(d);
  VF_CHECK("C10:encode", e == want, "base64Encode(" << vf::quote(d) << ") is " << vf::quote(e) << ", RFC 4648 says " << vf::quote(want));
  VF_CHECK("C10:encode", cuhksz::base64Encode(d, -1) == want, "explicit default length, " << vf::quote(d));
  std::string b = cuhksz::base64Decode(e);
  VF_CHECK("C10:round-trip", b == d, "decode(encode(" << vf::quote(d) << ")) is " << vf::quote(b));
  // padding is optional when decoding
  std::string u = cuhksz::base64Decode(bare);
  VF_CHECK("C10:unpadded", u == d, "decoding without padding " << vf::quote(bare) << " gives " << vf::quote(u) << ", expected " << vf::quote(d));
  // requested lengths
  int len = (int)bare.size(); int k = (int)s.range(-3, len + 12);
  std::string p = cuhksz::base64Encode(d, k);
  if (k < -1) VF_CHECK("C10:length", p.empty(), "negative length " << k << " gives " << vf::quote(p));
  else if (k >= 0 && k < len) VF_CHECK("C10:length", p.empty(), "length " << k << " is too short for " << vf::quote(d) << " but gives " << vf::quote(p));
  else if (k >= 0) {
    VF_CHECK("C10:length", p == bare + std::string(k - len, '='), "length " << k << " for " << vf::quote(d) << " gives " << vf::quote(p));
    VF_CHECK("C10:length", cuhksz::base64Decode(p) == d, "decoding text padded to " << k << " characters, " << vf::quote(d));
  }
  // arbitrary text decodes without fault and without changing the caller's string
  std::string junk = s.text(40), copy = junk; std::string j = cuhksz::base64Decode(junk);
  VF_CHECK("C10:junk", junk == copy && j.size() <= junk.size(), "decoding " << vf::quote(junk) << " gives " << j.size() << " bytes");
  vf::note("strings round-tripped"); vf::note("bytes round-tripped", d.size()); vf::note(d.find('\0') != std::string::npos ? "strings with zero bytes" : "strings without zero bytes");
  vf::sig(d); vf::sig((uint64_t)k); if (!d.empty()) vf::nontrivial(); vf::sample([&] { return vf::quote(d) + " -> " + e; });
}
