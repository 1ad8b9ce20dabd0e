// Writes inputs for rowdump:  geninputs OUT SEED COUNT CORPUS
#include "gens.hpp"
#include <set>
using namespace std;
int main(int argc, char** argv) {
  if (argc < 5) return 2; FILE* o = fopen(argv[1], "wb"); Rng r(strtoull(argv[2], 0, 10) * 31337 + 5); uint64_t n = strtoull(argv[3], 0, 10); Gens G; G.load(argv[4]);
  auto put = [&](int f, uint64_t b) { unsigned char c[9]; c[0] = f; for (int i = 0; i < 8; i++) { c[1 + i] = (unsigned char)b; b >>= 8; } fwrite(c, 1, 9, o); };
  for (int f = 0; f < 2; f++) { uint64_t inf = FMT[f].maxmag + 1, sb = f ? uint64_t(1) << 63 : uint64_t(1) << 31, q = uint64_t(1) << (FMT[f].P - 1); for (uint64_t m : {uint64_t(0), inf, inf + q, inf + q + 1, inf + 2 * q - 1}) { put(f, m); put(f, m | sb); } }
  for (uint64_t i = 0; i < n; i++) { int f = r.below(2), k = r.below(Gens::NKIND + 3); if (k >= Gens::NKIND) k = k == Gens::NKIND ? Gens::EDGE : k == Gens::NKIND + 1 ? Gens::HARD : Gens::MULT; uint64_t b = G.gen(f, k, r.next() >> 20, r); if (r.below(2)) b |= f ? uint64_t(1) << 63 : uint64_t(1) << 31; put(f, b); }
  return fclose(o) ? 2 : 0; }
