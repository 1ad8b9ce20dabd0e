// Records the arithmetic building blocks and the table of powers.
//   adrv arith|table LIB.so OUTDIR SEED CHUNKS SAMPLES SCOUT_SECONDS FULL [--inputs FILE]
#include "common.hpp"
#include "gens.hpp"
using namespace std; typedef unsigned __int128 u128;
typedef void (*Op)(u64, u64, u64, int, u64*, u64*); static Op op[12];
static const char* NAME[12] = {"umul64", "umul128", "umul128_upper64", "umul192_upper64", "umul96_upper32", "div2", "div2", "div5", "div5", "log10_2", "log2_10", "log5_2"};
struct In { int o; u64 x, yh, y; int n; };
static void run(const In& q, u64& h, u64& l) { h = l = 0; enter(q.o, q.x); op[q.o](q.x, q.yh, q.y, q.n, &h, &l); leave(); }
static string event(const In& q) { u64 h, l; run(q, h, l); string o = string("{\"k\":\"arith\",\"op\":\"") + NAME[q.o] + "\",\"o\":" + to_string(q.o) + ",\"x\":"; put_limbs(o, q.x); o += ",\"y\":"; put_limbs128(o, q.yh, q.y); o += ",\"n\":" + to_string(q.n) + ",\"r\":";
  if (q.o >= 5) o += to_string((int64_t)l); else put_limbs128(o, h, l); return o + "}\n"; }
// expected result for choosing what to record (operands of the multiplicative and divisibility operations only)
static bool odd(const In& q) { u64 h, l; run(q, h, l); switch (q.o) { case 0: return l != (u64)(u32)q.x * (u32)q.y; case 1: { u128 p = (u128)q.x * q.y; return h != (u64)(p >> 64) || l != (u64)p; } case 2: return l != (u64)(((u128)q.x * q.y) >> 64);
  case 3: { u128 p = (u128)q.x * q.yh + (u64)(((u128)q.x * q.y) >> 64); return l != (u64)(p >> 64); } case 4: return (u32)l != (u32)(((u128)(u32)q.x * q.y) >> 64) || l >> 32;
  case 5: { u32 x = (u32)q.x; return l != (u64)(q.n < 32 && !(x & ((u32(1) << q.n) - 1))); } case 6: return l != (u64)(q.n < 64 && !(q.x & ((u64(1) << q.n) - 1)));
  case 7: { u32 p = 1; for (int i = 0; i < q.n; i++) p *= 5; return l != (u64)((u32)q.x % p == 0); } case 8: { u64 p = 1; for (int i = 0; i < q.n; i++) p *= 5; return l != (u64)(q.x % p == 0); } } return false; }
static u64 word(Rng& r) { static const u64 H[] = {0, 1, 2, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0xfffffffeu, 0xffff, 0x10000, 0xffff0000u}; auto half = [&]() -> u64 { return r.below(3) ? H[r.below(11)] : r.next() & 0xffffffffu; };
  switch (r.below(5)) { case 0: return r.next(); case 1: return r.next() >> r.below(64); case 2: return ~(r.next() >> r.below(64)); case 3: return (u64(1) << r.below(64)) - r.below(2); default: return half() << 32 | half(); } }
static In gen(int o, Rng& r) { In q{o, word(r), 0, word(r), 0}; switch (o) { case 0: q.x = (u32)(r.below(2) ? q.x : q.x >> 32); q.y = (u32)(r.below(2) ? q.y : q.y >> 32); break;
  case 3: q.yh = word(r); if (q.x && r.below(2)) { u64 L = q.x * q.yh; u64 want = 0 - L - r.below(3) + r.below(3); /* upper word of x*y wanted near 2^64 - L */ u128 t = ((u128)want << 64) / q.x; if (!(t >> 64)) q.y = (u64)t + r.below(3); } break;
  case 4: q.x = (u32)(r.below(2) ? q.x : q.x >> 32); if ((u32)q.x && r.below(2)) { u64 k = r.below((u32)q.x); u128 t = ((u128)k << 64) / (u32)q.x; q.y = (u64)t + r.below(3) - 1; } break;
  case 5: case 6: { int W = o == 5 ? 32 : 64; q.y = 0; q.n = 1 + r.below(o == 5 ? 40 : 72); int s = r.below(3) ? q.n + r.range(-2, 1) : r.below(W); if (s < 0) s = 0; if (s >= W) s = W - 1; q.x = q.x << s; if (o == 5) q.x = (u32)q.x; if (!q.x) q.x = u64(1) << (r.below(W)); } break;
  case 7: case 8: { int N = o == 7 ? 12 : 24; q.y = 0; q.n = r.below(N); if (o == 7) q.x = (u32)q.x; int e = r.below(3) ? q.n + r.range(-1, 0) : r.below(N); if (e < 0) e = 0; u64 p = 1; for (int i = 0; i < e; i++) p *= 5; u64 mx = o == 7 ? 0xffffffffull : ~0ull; u64 k = mx / p; u64 m = r.below(4) ? r.next() % (k + (k != ~0ull)) : k - r.below(2); q.x = m * p + r.below(3) - 1 + (r.below(2) ? 0 : 0); if (r.below(2)) q.x = m * p; if (o == 7) q.x = (u32)q.x; } break; }
  return q; }
int main(int argc, char** argv) {
  if (argc < 9) return 2; string mode = argv[1]; outdir = argv[3]; u64 seed = strtoull(argv[4], 0, 10); int chunks = atoi(argv[5]); u64 samples = strtoull(argv[6], 0, 10); double secs = atof(argv[7]); int full = atoi(argv[8]); string inputs; for (int i = 9; i < argc; i++) if (string(argv[i]) == "--inputs") inputs = argv[++i];
  void* h = opn(argv[2]); watch_setup(); thread dog(watchdog); vector<string> ev; string missing; u64 nscout = 0, found = 0; Rng r(seed * 65537 + 11);
  if (mode == "table") { for (int f = 0; f < 2; f++) { string n = f ? "vp_21" : "vp_20"; auto g = (void (*)(int, u64*, u64*))dlsym(h, n.c_str()); auto rg = (void (*)(int*))dlsym(h, (n + "r").c_str()); if (!g || !rg) { missing += f ? "double " : "float "; continue; } int rr[3]; rg(rr);
      ev.push_back("{\"k\":\"range\",\"f\":" + to_string(f) + ",\"lo\":" + to_string(rr[0]) + ",\"hi\":" + to_string(rr[1]) + ",\"n\":" + to_string(rr[2]) + "}\n");
      if (rr[1] - rr[0] > 5000) continue; for (int k = rr[0]; k <= rr[1] && k - rr[0] < rr[2]; k++) { u64 hi, lo; enter(f, (u64)(k + 1000)); g(k, &hi, &lo); leave(); string o = "{\"k\":\"pow\",\"f\":" + to_string(f) + ",\"p\":" + to_string(k) + ",\"v\":"; put_limbs128(o, hi, lo); ev.push_back(o + "}\n"); } } }
  else { for (int o = 0; o < 12; o++) { op[o] = (Op)dlsym(h, ("vp_" + to_string(o)).c_str()); if (!op[o]) missing += to_string(o) + " "; }
    if (!inputs.empty()) { FILE* in = fopen(inputs.c_str(), "r"); if (!in) return 2; In q; unsigned long long x, yh, y; while (fscanf(in, "%d %llu %llu %llu %d", &q.o, &x, &yh, &y, &q.n) == 5) { q.x = x; q.yh = yh; q.y = y; if (q.o >= 0 && q.o < 12 && op[q.o]) ev.push_back(event(q)); } fclose(in); }
    else { // logarithms: the whole domain
      for (int o = 9; o < 12; o++) if (op[o]) { int lim = o == 9 ? 1650 : o == 10 ? 642 : 65536; for (int e = -lim; e <= lim; e++) if (o < 11 || full || (e > -1200 && e < 1200) || (e + 65536) % 61 == 0 || e == lim) ev.push_back(event({o, 0, 0, 0, e})); }
      for (int o = 0; o < 9; o++) if (op[o]) for (u64 i = 0; i < samples / 9; i++) ev.push_back(event(gen(o, r)));
      auto t0 = Clk::now(); atomic<u64> cnt{0}; mutex mu; vector<In> sus; workers([&](int t) { Rng r(seed * 71 + t); u64 c = 0; for (u64 i = 0;; i++) { if ((i & 255) == 0 && chrono::duration<double>(Clk::now() - t0).count() > secs) break; int o = i % 9; if (!op[o]) continue; In q = gen(o, r); c++; if (odd(q)) { lock_guard<mutex> g(mu); if (found++ < 100) sus.push_back(q); } } cnt += c; });
      nscout = cnt; for (auto& q : sus) ev.push_back(event(q)); } }
  write_chunks(ev, chunks); fin = true; dog.join(); printf("{\"events\":%zu,\"scouted\":%llu,\"flagged\":%llu,\"missing\":\"%s\"}\n", ev.size(), (unsigned long long)nscout, (unsigned long long)found, missing.c_str()); return 0; }
