// Replaces std::mt19937_64 in the fault-injection builds: the n-th number of the stream with seed s is vf_rng(s, n), which
// every harness defines (an arbitrary number, or an arbitrary function of its arguments).
#pragma once
#include <cstdint>
#include <random>
extern "C" uint64_t vf_rng(uint64_t seed, uint64_t index);
namespace std {
template <>
class mersenne_twister_engine<uint_fast64_t, 64, 312, 156, 31, 0xb5026f5aa96619e9ULL, 29, 0x5555555555555555ULL, 17, 0x71d67fffeda60000ULL, 37, 0xfff7eee000000000ULL, 43, 6364136223846793005ULL> {
  uint64_t _seed, _index = 0;

 public:
  using result_type = uint_fast64_t;
  static constexpr result_type default_seed = 5489u;
  mersenne_twister_engine() : _seed{default_seed} {
  }
  explicit mersenne_twister_engine(result_type s) : _seed{s} {
  }
  void seed(result_type s = default_seed) {
    _seed = s;
    _index = 0;
  }
  void discard(unsigned long long n) {
    _index += n;
  }
  static constexpr result_type min() {
    return 0;
  }
  static constexpr result_type max() {
    return ~uint64_t{0};
  }
  result_type operator()() {
    return vf_rng(_seed, _index++);
  }
  friend bool operator==(const mersenne_twister_engine& a, const mersenne_twister_engine& b) {
    return a._seed == b._seed && a._index == b._index;
  }
};
}  // namespace std
