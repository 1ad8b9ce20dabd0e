#include "modes.hpp"
#define D(n) void vi_row_##n(int, uint64_t, Res*); void vi_one_##n(int, uint64_t, int, int, Res*);
D(0) D(1) D(2) D(3) D(4) D(5) D(6)
#define EXP extern "C" __attribute__((visibility("default")))
EXP void vi_row(int f, uint64_t b, Res* o) {
  vi_row_0(f, b, o); vi_row_1(f, b, o + 10); vi_row_2(f, b, o + 20); vi_row_3(f, b, o + 30); vi_row_4(f, b, o + 40); vi_row_5(f, b, o + 50); vi_row_6(f, b, o + 60); }
EXP void vi_one(int f, uint64_t b, int m, int t, Res* o) {
  switch (m / 2) { case 0: return vi_one_0(f, b, m, t, o); case 1: return vi_one_1(f, b, m, t, o); case 2: return vi_one_2(f, b, m, t, o);
    case 3: return vi_one_3(f, b, m, t, o); case 4: return vi_one_4(f, b, m, t, o); case 5: return vi_one_5(f, b, m, t, o); default: return vi_one_6(f, b, m, t, o); } }
// every argument defaulted
template <class F> static void dflt(uint64_t b, Res* o) { auto v = jkj::grisu_exact(of<F>(b)); o->sig = v.significand; o->exp = v.exponent; o->neg = v.is_negative; }
EXP void vi_default(int f, uint64_t b, Res* o) { if (f == 0) dflt<float>(b, o); else dflt<double>(b, o); }
