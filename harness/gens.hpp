// Input generators.  All return a magnitude pattern (sign bit clear), finite and nonzero.
#pragma once
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
struct Rng { uint64_t s; explicit Rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); } };
// a permutation of 0..n-1 whose prefixes are spread evenly, so that a sweep cut short by its time limit has looked everywhere
static inline uint64_t scatter(uint64_t k, uint64_t n, uint64_t seed) { uint64_t m = (uint64_t)(n * 0.6180339887498949) | 1; auto gcd = [](uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; };
  while (gcd(m, n) != 1) m += 2; return (uint64_t)(((unsigned __int128)k * m + seed % n) % n); }
struct FI { int P, EB; uint64_t maxmag; };
static const FI FMT[2] = {{23, 8, 0x7f7fffffull}, {52, 11, 0x7fefffffffffffffull}};
static inline uint64_t clampmag(int f, uint64_t b) { if (b == 0) return 1; if (b > FMT[f].maxmag) return FMT[f].maxmag; return b; }
static inline bool okmag(int f, uint64_t b) { return b >= 1 && b <= FMT[f].maxmag; }

struct Gens {
  std::vector<uint64_t> hard[2], edge[2], words;
  void load(const std::string& dir) {
    if (const char* wf = getenv("VI_WORDS")) { FILE* h = fopen(wf, "r"); if (h) { unsigned long long v; while (fscanf(h, "%llu", &v) == 1) words.push_back(v); fclose(h); } }
    const char* n[2] = {"/hard_float.bin", "/hard_double.bin"};
    if (FILE* h = fopen((dir + "/paths.txt").c_str(), "r")) { int f; unsigned long long v; while (fscanf(h, "%d %llu", &f, &v) == 2) if (f >= 0 && f < 2 && okmag(f, v)) hard[f].push_back(v); fclose(h); }
    for (int f = 0; f < 2; f++) {
      FILE* h = fopen((dir + n[f]).c_str(), "rb"); if (h) { uint64_t v; while (fread(&v, 8, 1, h) == 1) if (okmag(f, v)) hard[f].push_back(v); fclose(h); }
      int P = FMT[f].P; uint64_t one = uint64_t(1) << P, mask = one - 1; int me = (1 << FMT[f].EB) - 2;
      for (int e = 0; e <= me; e++) {
        uint64_t fr[] = {0, 1, 2, 3, mask, mask - 1, one / 2, one / 2 - 1, one / 2 + 1, one / 4, 0x5555555555555555ull & mask, 0xAAAAAAAAAAAAAAAAull & mask};
        for (uint64_t x : fr) { uint64_t b = (uint64_t(e) << P) | x; if (okmag(f, b)) edge[f].push_back(b); } } } }
  enum { EDGE, HARD, UNI, STRUCT, SHORT, MULT, INTS, SUB, NEIGH, DIGITS, TAIL, WORDS, NKIND };
  static const char* name(int k) { static const char* n[] = {"edges", "hard", "uniform", "structured", "short-decimals", "exact-multiples", "integers", "subnormal", "near-power", "digit-patterns", "binary-tails", "dictionary"}; return n[k]; }
  // the pattern nearest to s * 10^E, or 0
  static uint64_t nearest(int f, uint64_t s, int E) { char t[64]; snprintf(t, sizeof t, "%lluE%d", (unsigned long long)s, E); uint64_t b = 0;
    if (f) { double d = strtod(t, 0); memcpy(&b, &d, 8); } else { float d = strtof(t, 0); uint32_t u; memcpy(&u, &d, 4); b = u; }
    return okmag(f, b) ? b : 0; }
  // digit strings of every length with runs of zeros and nines, repeated digits and carries between groups of digits
  static uint64_t digits(int f, Rng& r) { int n = r.range(1, f ? 17 : 9); uint64_t p = 1; for (int k = 1; k < n; k++) p *= 10; uint64_t s;
    switch (r.below(8)) { case 0: s = p + r.below(3); break; case 1: s = 10 * p - 1 - r.below(3); break;
      case 2: s = 0; for (uint64_t d = 1 + r.below(9), k = n; k--;) s = 10 * s + d; break;
      case 3: { s = 0; uint64_t d = r.below(10); for (int k = 0; k < n; k++) { if (r.below(3) == 0) d = r.below(3) == 0 ? r.below(10) : r.below(2) * 9; s = 10 * s + d; } break; }
      case 4: { uint64_t q = 1; for (int k = r.range(0, n - 1); k--;) q *= 10; s = p * (1 + r.below(9)) + q * r.below(10) + r.below(3) - 1; break; }
      case 5: { static const int g[] = {0, 1, 9999, 9998, 5000, 1000, 10, 100, 4999, 999}; s = 0; for (int k = 0; k < 5; k++) s = s * 10000 + (r.below(4) ? g[r.below(10)] : (int)r.below(10000)); s %= 10 * p; break; }
      case 6: { uint64_t q = 1; for (int k = r.range(0, n); k--;) q *= 10; s = r.next() % (10 * p); s = s / q * q + (r.below(2) ? q - 1 : 0); break; }
      default: { uint64_t q = uint64_t(1) << r.below(54); s = (q + r.below(3) - 1) % (10 * p); } }
    return s ? s : 1; }
  // the integers written in the sources under test, as patterns, fractions, exponents, factors and decimals
  uint64_t word(int f, Rng& r) const { const FI& F = FMT[f]; int P = F.P; uint64_t one = uint64_t(1) << P, mask = one - 1; int me = (1 << F.EB) - 2, bias = (1 << (F.EB - 1)) - 1;
    uint64_t w = words[r.below(words.size())]; static const int off[] = {0, 0, 0, 0, 1, -1}; w += off[r.below(6)];
    auto expo = [&]() -> uint64_t { int64_t v = (int64_t)(w & 2047); int64_t c[] = {v, bias + v, bias - v, bias + P + v, bias + P - v, bias + v + P + 1, me - v, v + 1, bias + (P > 30 ? 63 : 31) + v, bias + (P > 30 ? 63 : 31) - v}; int64_t e = c[r.below(10)]; return e < 0 || e > me ? r.below(me + 1) : e; };
    auto frac = [&]() -> uint64_t { uint64_t x = r.next() & mask; switch (r.below(10)) { case 0: return 0; case 1: return mask; case 2: return r.below(16); case 3: return mask - r.below(16); case 4: return words[r.below(words.size())] & mask;
      case 8: case 9: { uint64_t v = words[r.below(words.size())], wm = v; for (int k = 1; k < 64; k <<= 1) wm |= wm >> k; int sh = r.below(P); return ((x & ~(wm << sh)) | (v << sh)) & mask; } case 5: return uint64_t(1) << r.below(P); case 6: return x >> r.below(P) << r.below(P) & mask; default: return x; } };
    switch (r.below(10)) {
      case 0: return clampmag(f, w & (2 * (F.maxmag + 1) - 1));
      case 1: { uint64_t x = w ? w : 1; if (r.below(2)) { while (x < one) x <<= 1; while (x >= 2 * one) x >>= 1; } return clampmag(f, ((r.below(4) ? r.below(me + 1) : expo()) << P) | (x & mask)); }
      case 2: case 3: case 4: return clampmag(f, (expo() << P) | frac());
      case 5: { uint64_t b = nearest(f, w, f ? r.range(-340, 308) : r.range(-55, 38)); return b ? b : clampmag(f, nearest(f, w, r.range(-12, 4))); }
      case 6: { uint64_t s = digits(f, r); int n = 1; for (uint64_t t = s; t >= 10; t /= 10) n++; int v = (int)(w % 400); uint64_t b = nearest(f, s, (r.below(2) ? v : -v) - (int)r.below(2) * (n - 1)); return b ? b : clampmag(f, s); }
      case 7: { if (w < 2) w = 3; uint64_t k = 1 + r.next() % (w > 2 * one ? 1 : 2 * one / w); uint64_t m = w * k; while (m && m < one) m <<= 1; while (m >= 2 * one) m >>= 1; return clampmag(f, (r.below(me + 1) << P) | (m & mask)); }
      case 8: { uint64_t n = w; for (int k = r.range(0, 6); k--;) n = n * 10 + r.below(10); uint64_t b = nearest(f, n ? n : 1, r.range(-25, 3)); return clampmag(f, b + r.below(3) - 1); }
      default: return clampmag(f, (uint64_t)(w & (2 * (F.maxmag + 1) - 1)) ^ (uint64_t(1) << r.below(P))); } }
  uint64_t gen(int f, int kind, uint64_t i, Rng& r) const {
    const FI& F = FMT[f]; int P = F.P; uint64_t one = uint64_t(1) << P, mask = one - 1; int me = (1 << F.EB) - 2;
    switch (kind) {
      case EDGE: return edge[f][i % edge[f].size()];
      case HARD: if (!hard[f].empty()) { uint64_t b = hard[f][i % hard[f].size()]; int d = (i / hard[f].size()) % 3; return clampmag(f, d == 0 ? b : d == 1 ? b + 1 : b - 1); } // fallthrough
      case UNI: return clampmag(f, r.next() % (F.maxmag + 1));
      case STRUCT: { uint64_t e = r.below(me + 1), x = 0; switch (r.below(5)) {
          case 0: for (int k = r.range(1, 4); k--;) x |= uint64_t(1) << r.below(P); break;
          case 1: x = (r.next() & mask) >> r.below(P) << r.below(P); break;
          case 2: x = mask & ~((uint64_t(1) << r.below(P)) - 1); break;
          case 3: x = (uint64_t(1) << r.below(P)) - 1; break;
          default: x = mask; for (int k = r.range(1, 3); k--;) x ^= uint64_t(1) << r.below(P); }
        return clampmag(f, (e << P) | (x & mask)); }
      case SHORT: { int nd = r.range(1, f ? 17 : 9); uint64_t s = 0; for (int k = 0; k < nd; k++) s = s * 10 + r.below(10); if (r.below(4) == 0) { for (int k = r.range(0, nd); k--;) s = s / 10 * 10 + 0; }
        if (!s) s = 1; int E = f ? r.range(-340, 308) : r.range(-53, 38); char t[64]; snprintf(t, sizeof t, "%lluE%d", (unsigned long long)s, E - nd + 1); uint64_t b = 0;
        if (f) { double d = strtod(t, 0); memcpy(&b, &d, 8); } else { float d = strtof(t, 0); uint32_t u; memcpy(&u, &d, 4); b = u; }
        if (!okmag(f, b)) b = clampmag(f, r.next() % (F.maxmag + 1)); int64_t dl = (int64_t)r.range(-3, 3); if (r.below(2)) dl = 0; return clampmag(f, b + dl); }
      case MULT: { // the value, a boundary or a neighbour is an exact (half) multiple of a power of ten
        for (int tries = 0; tries < 40; tries++) {
          int e = r.range(-(P + 60), f ? 90 : 50); int E = (int)floor(e * 0.30102999566398) + r.range(-2, 3 + (int)r.below(2) * r.range(0, P / 3));
          int p2 = E - (e - 2); int p5 = E > 0 ? E : 0; if (r.below(3) == 0) p2--;  // half multiples
          if (p2 < 0) p2 = 0; if (p5 > 25 || p2 > P + 2) continue; u128_t L = 1; bool big = false; for (int k = 0; k < p5; k++) { L *= 5; if (L >> 60) { big = true; break; } } if (big) continue;
          if (p2 + 1 > 62) continue; L <<= p2; if (L >> 62) continue; uint64_t l = (uint64_t)L;
          uint64_t lo = uint64_t(1) << (P + 2); uint64_t m = lo + r.below(lo); m = m / l * l; if (m < lo) m += l; if (m < lo || m > 2 * lo) continue;
          static const int off[] = {0, 2, -2, 4, -4, -1}; int64_t mm = (int64_t)m - off[r.below(6)];
          for (int k = 0; k < 4 && (mm & 3); k++) mm += (int64_t)l; if (mm & 3) continue; uint64_t fsig = (uint64_t)mm >> 2; int ee = e;
          if (fsig >= 2 * one || fsig < one) continue; int be = ee + P + (1 << (F.EB - 1)) - 1; if (be < 1 || be > me) continue; return clampmag(f, (uint64_t(be) << P) | (fsig & mask)); }
        return clampmag(f, r.next() % (F.maxmag + 1)); }
      case INTS: { uint64_t n = r.next() >> r.range(64 - (f ? 60 : 30), 62); if (!n) n = 1; int sc = r.range(-30, 0); if (r.below(2)) sc = 0; uint64_t b = 0;
        if (f) { double d = ldexp((double)n, sc); memcpy(&b, &d, 8); } else { float d = (float)ldexp((double)n, sc); uint32_t u; memcpy(&u, &d, 4); b = u; } return clampmag(f, b); }
      case WORDS: return words.empty() ? clampmag(f, r.next() % (F.maxmag + 1)) : word(f, r);
      case SUB: return clampmag(f, (r.next() & (4 * one - 1)) >> r.below(P + 2));
      case DIGITS: { uint64_t s = digits(f, r); int n = 1; for (uint64_t t = s; t >= 10; t /= 10) n++; uint64_t b = nearest(f, s, (f ? r.range(-324, 308) : r.range(-46, 38)) - n + 1);
        if (!b) b = nearest(f, s, r.range(-20, 0)); return clampmag(f, b + (r.below(8) ? 0 : r.below(3) - 1)); }
      case TAIL: { // a * 10^k + c * 2^j + small: the remainder after cutting k digits sits at a word boundary
        static const int js[] = {32, 31, 16, 33, 32, 24, 15, 8}; int k = r.range(f ? 7 : 3, f ? 12 : 8); uint64_t p = 1; for (int i = 0; i < k; i++) p *= 10; int x = r.below(8), j = js[x]; while ((uint64_t(1) << j) >= p) j = js[++x & 7];
        uint64_t t = (1 + r.below(p >> j)) << j, a = 1 + r.below(1000), lim = f ? 1000000000000000000ull : 10000000000ull; while (a * p < lim / 10) a = a * 10 + r.below(10);
        uint64_t b = nearest(f, a * p + t % p + r.below(f ? 900 : 90), r.below(3) ? 0 : f ? r.range(-330, 280) : r.range(-50, 24)); if (!b) b = nearest(f, a * p + t % p, 0); return clampmag(f, b + r.below(3) - 1); }
      default: { uint64_t e = 1 + r.below(me), k = r.below(2000); return clampmag(f, r.below(2) ? (e << P) + k : (e << P) - k); } } }
  typedef unsigned __int128 u128_t;
};
