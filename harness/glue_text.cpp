#include "fp_to_chars.h"
#include "abi.h"
#include <string.h>
#define D(n) char* vi_text_##n(int, uint64_t, int, int, char*, int);
D(0) D(1) D(2) D(3) D(4) D(5) D(6)
#define EXP extern "C" __attribute__((visibility("default")))
EXP char* vi_text(int f, uint64_t b, int m, int t, char* s, int z) {
  switch (m / 2) { case 0: return vi_text_0(f, b, m, t, s, z); case 1: return vi_text_1(f, b, m, t, s, z); case 2: return vi_text_2(f, b, m, t, s, z);
    case 3: return vi_text_3(f, b, m, t, s, z); case 4: return vi_text_4(f, b, m, t, s, z); case 5: return vi_text_5(f, b, m, t, s, z); default: return vi_text_6(f, b, m, t, s, z); } }
// every argument defaulted
EXP char* vi_deftext(int f, uint64_t b, char* s, int z) {
  if (f == 0) { float x; uint32_t u = (uint32_t)b; memcpy(&x, &u, 4); return z ? jkj::fp_to_chars(x, s) : jkj::fp_to_chars_n(x, s); }
  double x; memcpy(&x, &b, 8); return z ? jkj::fp_to_chars(x, s) : jkj::fp_to_chars_n(x, s); }
