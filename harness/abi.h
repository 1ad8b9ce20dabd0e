// C interface of one build of the library under test.
#pragma once
#include <stdint.h>
struct Res { uint64_t sig; int32_t exp; int32_t neg; };
#define NM 14
#define NT 5
#define NC 70
struct Forms { int n, nt; Res r[24]; int sgn[24]; char text[16][64]; };
struct HCalls { int n, threw; uint64_t bits[8]; };
struct Insp { uint64_t f, back, sig, payload; uint32_t exp; int finite, nonzero, subnormal, positive, negative, inf, pinf, ninf, nan, qnan, snan, paylen, payn; };
extern "C" {

// result under all 70 combinations (mode-major) for one bit pattern; fmt 0 float, 1 double
void vi_row(int fmt, uint64_t bits, Res* out);
void vi_one(int fmt, uint64_t bits, int mode, int tie, Res* out);
char* vi_text(int fmt, uint64_t bits, int mode, int tie, char* buf, int terminated);
}
