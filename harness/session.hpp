// Requests, answers and session records: shared by sdrv.cpp and tsanrun.cpp.
#pragma once
#include "common.hpp"
#include "gens.hpp"
struct Arg { int kind, f, m, p; u64 b; int fam; };        // kind 0 numeric, 1 text, 2 terminated text, 3 numeric with a handler that converts
struct Out { unsigned char n; unsigned char d[47]; };
struct Lib { void (*one)(int, u64, int, int, Res*); char* (*text)(int, u64, int, int, char*, int); void (*nest)(int, u64, int, int, void (*)(void*), void*, Res*); };
static Lib L; static std::vector<Arg> args; static std::vector<std::vector<int>> fams;
static void pack(const Res& r, Out& o) { o.n = 13; o.d[0] = (unsigned char)r.neg; memcpy(o.d + 1, &r.exp, 4); memcpy(o.d + 5, &r.sig, 8); }
static inline void nothing(void*) {}
static __attribute__((noinline)) void run(const Arg& a, Out& o, void (*cb)(void*) = nothing, void* ctx = nullptr) {
  memset(&o, 0, sizeof o);
  if (a.kind == 0) { Res r; memset(&r, 0, sizeof r); L.one(a.f, a.b, a.m, a.p, &r); pack(r, o); }
  else if (a.kind == 3) { Res r; memset(&r, 0, sizeof r); L.nest(a.f, a.b, a.m, a.p, cb, ctx, &r); pack(r, o); }
  else { char buf[64]; memset(buf, 'Z', sizeof buf); char* e = L.text(a.f, a.b, a.m, a.p, buf, a.kind == 2); long n = e - buf; if (n < 0 || n > 40) n = 41; else if (a.kind == 2) n++; o.n = (unsigned char)n; memcpy(o.d, buf, n); } }
static inline bool same(const Out& x, const Out& y) { return x.n == y.n && memcmp(x.d, y.d, x.n > 47 ? 47 : x.n) == 0; }
// Values come in families: close in every way a shortcut might confuse them.
static void make_args(u64 seed, const Gens& G, int nfam, int per) {
  Rng r(seed * 77773 + 5);
  for (int k = 0; k < nfam; k++) { fams.push_back({}); int f0 = (int)r.below(3) != 0; u64 v = G.gen(f0, (int)r.below(Gens::NKIND), r.next() >> 20, r);
    std::vector<std::pair<int, u64>> vs; auto put = [&](int f, u64 b) { vs.push_back({f, b}); };
    put(f0, v); put(f0, v | signbit_of(f0)); put(f0, clampmag(f0, v + 1)); put(f0, clampmag(f0, v - 1));
    int P = FMT[f0].P; u64 one = u64(1) << P;
    put(f0, clampmag(f0, (v & (one - 1)) | (r.below((1 << FMT[f0].EB) - 1) << P)));                 // same fraction, another exponent
    put(f0, clampmag(f0, (v & ~(one - 1)) | (r.next() & (one - 1))));                               // same exponent, another fraction
    put(f0, clampmag(f0, v ^ (u64(1) << r.below(P + 3)))); put(f0, clampmag(f0, (v & 0xffff) | (r.next() % FMT[f0].maxmag & ~u64(0xffff))));
    if (f0) { u64 w = v >> 29 & 0x7fffffff; put(0, clampmag(0, w)); put(0, clampmag(0, v & 0x7fffffff)); double d; memcpy(&d, &v, 8); float x = (float)d; u32 u; memcpy(&u, &x, 4); put(0, clampmag(0, u)); }
    else { u32 w = (u32)v; float x; memcpy(&x, &w, 4); double d = x; u64 u; memcpy(&u, &d, 8); put(1, clampmag(1, u)); put(1, v); }
    for (int i = 0; i < per; i++) { int j = i < (int)vs.size() ? i : (int)r.below(vs.size()); Arg a{0, vs[j].first, 0, 1, vs[j].second, k};
      if (i >= 3) { a.kind = r.below(3) ? (int)r.below(3) : 0; if (r.below(12) == 0) a.kind = 3; a.m = (int)r.below(NM); a.p = (int)r.below(NT); if (r.below(5) == 0) { a.m = 0; a.p = 1; }
        if (a.kind && a.kind < 3 && r.below(10) == 0) { static const u64 sp[2][6] = {{0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0xff812345}, {0, u64(1) << 63, u64(0x7ff) << 52, u64(0xfff) << 52, u64(0x7ff8) << 48, u64(0xfff01) << 44}}; a.b = sp[a.f][r.below(6)]; } }
      else if (i == 2) a.kind = 1;
      fams.back().push_back((int)args.size()); args.push_back(a); } } }
