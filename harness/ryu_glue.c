#include "ryu/ryu.h"
#include <string.h>
__attribute__((visibility("default"))) void vi_ryu(int f, uint64_t b, char* out) {
  if (f == 0) { float x; uint32_t u = (uint32_t)b; memcpy(&x, &u, 4); f2s_buffered(x, out); }
  else { double x; memcpy(&x, &b, 8); d2s_buffered(x, out); } }
