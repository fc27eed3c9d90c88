// Force-included into the library and the harness of C26: the raw outputs of
// std::mt19937_64 can be replaced by a finite script of extreme values, after
// which the real engine goes on.  Everything else about the engine is the real one.
#ifndef VF_SCRIPTED_ENGINE
#define VF_SCRIPTED_ENGINE
#ifdef __cplusplus
#include <cstdint>
#include <random>
namespace vf_script {
struct State { const std::uint64_t* at; const std::uint64_t* end; std::uint64_t served; };
inline State& state() { static thread_local State s = {nullptr, nullptr, 0}; return s; }
}  // namespace vf_script
namespace std {
class vf_scripted_engine : public mt19937_64 {
 public:
  using mt19937_64::mt19937_64;
  vf_scripted_engine() {}
  result_type operator()() {
    result_type real = mt19937_64::operator()();
    vf_script::State& s = vf_script::state();
    if (s.at == s.end) return real;
    ++s.served;
    return *s.at++;
  }
};
}  // namespace std
#define mt19937_64 vf_scripted_engine
#endif
#endif
