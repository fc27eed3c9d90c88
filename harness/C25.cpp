// stringCast: text written from a value converts back to that value, however and however often it is asked.
#include "string_utils/StringCast.h"
#include "vf.h"
#include <limits>
#include <memory>
namespace {
template <class T> bool same(const T& a, const T& b) { return a == b; }
template <class T> void roundTrip(vf::Src& s, const T& v, const std::string& txt, const char* tn) {
  std::string t = s.str(3, " \t\n") + txt; if (std::is_integral<T>::value && sizeof(T) > 1 && s.chance(1, 5)) { static const std::vector<std::string> G = {"x10", "X", "abc", ".5", "e5", ",7", "}", "_", "-1", "+2", "L", "u", "%", "b1", "o7", "\""}; t += s.pick(G); if (s.chance(1, 2)) t += s.text(4); vf::note("attached text"); } else if (s.chance(1, 2)) t += s.str(3, " \n\t"); if (s.chance(1, 6)) t += " " + s.text(6);
  vf::sig(t); vf::nontrivial(); vf::sample([&] { return std::string(tn) + " from " + vf::quote(t); });
  std::unique_ptr<std::string> src(new std::string(t)); cuhksz::stringCast<T> c(*src); if (s.chance(1, 2)) { *src = std::string(t.size(), 'x'); src.reset(); }  // the source text may die first
  T a = c; T b = c(); T d = (T)cuhksz::stringCast<T>(t); cuhksz::stringCast<T> e(c); T f = e();
  VF_CHECK("C25:value", same(a, v) && same(b, v) && same(d, v) && same(f, v), tn << " from " << vf::quote(t) << " is " << vf::show(a) << " / " << vf::show(b) << " / " << vf::show(d) << " / " << vf::show(f) << ", expected " << vf::show(v)); vf::note("conversions compared");
}
template <class T> std::string out(const T& v) { std::ostringstream o; o.precision(std::numeric_limits<T>::max_digits10 ? std::numeric_limits<T>::max_digits10 : 6); o << v; return o.str(); }
template <class T> void ints(vf::Src& s, const char* tn) { long long lo = std::is_signed<T>::value ? (long long)std::numeric_limits<T>::min() : 0, hi = sizeof(T) == 8 ? 9223372036854775807ll : (long long)std::numeric_limits<T>::max(); T v = (T)s.range(lo, hi); std::string t = std::to_string(v); if (v >= 0 && s.chance(1, 6)) t = "+" + t; if (s.chance(1, 6)) t.insert(t[0] == '-' || t[0] == '+', s.str(3, "0")); roundTrip<T>(s, v, t, tn); }
template <class T> void bad(vf::Src& s, const char* tn) { static const std::vector<std::string> B = {"", " ", "abc", "-", "+", "x1", "--1", "\n", ".", "e5", ",1", "\"1\"", "{1}"}; std::string t = s.pick(B); vf::sig(t); cuhksz::stringCast<T> c(t); T a = c(), b = c; VF_CHECK("C25:no-value", a == T(0) && b == T(0), tn << " from " << vf::quote(t) << " is " << vf::show(a) << ", expected zero"); vf::note("texts without a value"); }
}  // namespace
// Every integer of up to five digits, every width around the powers of two, every character.
static void sweep() {
  for (int v = -33000; v <= 66000; ++v) { std::string t = std::to_string(v); int g = cuhksz::stringCast<int>(t); VF_CHECK("C25:value", g == v, "int from " << t << " is " << g); if (v % 4 == 0 && v >= -32768 && v <= 32767) { short h = cuhksz::stringCast<short>(t); VF_CHECK("C25:value", h == v, "short from " << t << " is " << h); } if (v % 5 == 0) { double d = cuhksz::stringCast<double>(t); VF_CHECK("C25:value", d == v, "double from " << t << " is " << d); } }
  for (int k = 0; k < 64; ++k) for (int q = -2; q <= 2; ++q) { uint64_t u = (1ull << k) + (uint64_t)(int64_t)q; uint64_t g = cuhksz::stringCast<uint64_t>(std::to_string(u)); VF_CHECK("C25:value", g == u, "uint64 from " << u << " is " << g); int64_t i = (int64_t)u, h = cuhksz::stringCast<int64_t>(std::to_string(i)); VF_CHECK("C25:value", h == i, "int64 from " << i << " is " << h); }
  for (int c = 1; c < 256; ++c) if (!isspace(c)) { char g = cuhksz::stringCast<char>(std::string(1, (char)c)); VF_CHECK("C25:value", g == (char)c, "char from code " << c << " is " << (int)g); } vf::note("swept integers", 99001);
}
VF_HARNESS2(C25, true, sweep) {
  switch (s.below(12)) {
    case 0: case 1: ints<int>(s, "int"); break; case 2: ints<long long>(s, "long long"); break; case 3: ints<short>(s, "short"); break; case 4: ints<unsigned>(s, "unsigned"); break; case 5: { uint64_t v = s.next64(); roundTrip<uint64_t>(s, v, std::to_string(v), "uint64_t"); break; }
    case 6: case 7: { double v = s.chance(1, 2) ? s.real(-1e6, 1e6) : std::ldexp(s.unit() * 2 - 1, (int)s.range(-900, 900)); if (v != 0 && std::fabs(v) < 1e-290) v = 0; roundTrip<double>(s, v, out(v), "double"); break; }
    case 8: { float v = (float)s.real(-1e6, 1e6); if (v != 0 && std::fabs(v) < 1e-30f) v = 0; roundTrip<float>(s, v, out(v), "float"); break; }
    case 9: { std::string w = s.str(12, "abcXYZ0189_-{}\",:\\/\x80\xff"); if (w.empty()) w = "w"; roundTrip<std::string>(s, w, w, "string"); break; }
    case 10: { if (s.chance(1, 2)) { bool v = s.chance(1, 2); roundTrip<bool>(s, v, v ? "1" : "0", "bool"); } else { char v = "azAZ09{}-+.\x7f"[s.below(12)]; roundTrip<char>(s, v, std::string(1, v), "char"); } break; }
    default: if (s.chance(1, 2)) bad<int>(s, "int"); else bad<double>(s, "double");
  }
}
