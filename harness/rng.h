#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t a = 1, uint64_t b = 0, uint64_t c = 0) { s = a * 0x9E3779B97F4A7C15ull ^ (b + 1) * 0xD1B54A32D192ED03ull ^ (c + 7) * 0x8CB92BA72F3D8DD7ull; next(); next(); }
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
  int range(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
  bool one_in(int n) { return below(n) == 0; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
  template <size_t N> const char *pick(const char *const (&v)[N]) { return v[below(N)]; }
};
