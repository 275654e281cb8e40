// Choice tape: every random decision of a generated case is one bounded draw.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <initializer_list>

struct Gen {
  std::vector<uint32_t> out;            // recorded draws
  uint32_t* mirror = nullptr; size_t mirrorCap = 0;   // optional live copy in shared memory: [0]=count, then draws
  explicit Gen(uint64_t seed) : rng(seed) {}
  explicit Gen(const std::vector<uint32_t>& tape) : in(tape), replaying(true) {}
  Gen(const std::vector<uint32_t>& tape, uint64_t seed) : rng(seed), in(tape), replaying(true), goOn(true) {}   // the tape, then random draws
  // uniform in [0,n)
  uint32_t below(uint32_t n) {
    if (n == 0) n = 1;
    uint32_t v;
    if (replaying && !(goOn && pos >= in.size())) { v = pos < in.size() ? in[pos++] : 0; if (v >= n) v %= n; }
    else v = (uint32_t)(next() % n);
    out.push_back(v);
    if (mirror && out.size() < mirrorCap) { mirror[out.size()] = v; mirror[0] = (uint32_t)out.size(); }
    return v;
  }
  int range(int lo, int hi) { return hi <= lo ? lo : lo + (int)below((uint32_t)(hi - lo) + 1); }   // inclusive, shrinks to lo
  bool chance(int percent) { return (int)below(100) >= 100 - percent; }                          // shrinks to false
  bool mostly(int percent) { return (int)below(100) < percent; }                                 // shrinks to true
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below((uint32_t)l.size())); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
 private:
  uint64_t rng = 0; std::vector<uint32_t> in; size_t pos = 0; bool replaying = false, goOn = false;
  uint64_t next() { uint64_t z = (rng += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
};
inline uint64_t mix64(uint64_t a, uint64_t b) { uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return mix64(h, s.size()); }
