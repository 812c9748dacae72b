// Force-included: the generator behind random data hands out arbitrary 32-bit
// values, the same ones again for the same seed.
#pragma once
#include <algorithm>
#include <random>
#include <cstdint>
extern "C" { uint32_t om_draw(void); void om_seed(uint64_t); uint32_t om_entropy(void); }
namespace std {
struct om_generator {
  using result_type = uint_fast32_t;
  om_generator(result_type = 5489u) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  void seed(result_type s) { om_seed(s); }
  result_type operator()() { return om_draw(); }
};
struct om_device { unsigned operator()() { return om_entropy(); } };
}
#define mt19937 om_generator
#define random_device om_device
