// One build of the library as a program: reads inputs, writes results or their hashes.
//   rowdump hash|full INPUTS OUTPUT     INPUTS: records of 1 byte format, 8 bytes pattern
// full record: 70 x (8 sig, 4 exp, 4 neg), then 70 x (1 length, 31 text)
#include "abi.h"
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static unsigned char rec[9]; static unsigned long idx;
static void onsig(int s) { char b[64]; int n = snprintf(b, sizeof b, "CRASH %d %lu\n", s, idx); if (write(2, b, n)) {} _exit(3); }
static unsigned char out[70 * 16 + 70 * 32];
static void put(unsigned char* p, uint64_t v, int n) { for (int i = 0; i < n; i++) { p[i] = (unsigned char)v; v >>= 8; } }
int main(int argc, char** argv) {
  if (argc < 4) return 2; int full = argv[1][0] == 'f'; FILE* in = fopen(argv[2], "rb"); FILE* o = fopen(argv[3], "wb"); if (!in || !o) return 2;
  int sg[] = {SIGSEGV, SIGILL, SIGTRAP, SIGABRT, SIGFPE, SIGBUS, SIGALRM}; for (int i = 0; i < 7; i++) signal(sg[i], onsig);
  while (fread(rec, 1, 9, in) == 9) { int f = rec[0]; uint64_t b = 0; for (int i = 7; i >= 0; i--) b = b << 8 | rec[1 + i];
    uint64_t m = f ? b & 0x7fffffffffffffffull : b & 0x7fffffff, mx = f ? 0x7fefffffffffffffull : 0x7f7fffff; memset(out, 0, sizeof out); if ((idx & 1023) == 0) alarm(60);
    if (m && m <= mx) { Res r[NC]; memset(r, 0, sizeof r); vi_row(f, b, r); for (int i = 0; i < NC; i++) { put(out + 16 * i, r[i].sig, 8); put(out + 16 * i + 8, (uint32_t)r[i].exp, 4); put(out + 16 * i + 12, (uint32_t)r[i].neg, 4); } }
    for (int i = 0; i < NC; i++) { char t[128]; memset(t, 0x55, sizeof t); char* e = vi_text(f, b, i / 5, i % 5, t + 32, i & 1); long n = e - (t + 32); if (n < 0 || n > 31) n = 31; out[1120 + 32 * i] = (unsigned char)n; memcpy(out + 1120 + 32 * i + 1, t + 32, n < 31 ? n : 31); }
    if (full) fwrite(out, 1, sizeof out, o); else { uint64_t h = 1469598103934665603ull; for (unsigned i = 0; i < sizeof out; i += 4) { uint32_t w; memcpy(&w, out + i, 4); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } unsigned char hb[8]; put(hb, h, 8); fwrite(hb, 1, 8, o); }
    idx++; }
  if (fclose(o)) return 2; return 0; }
