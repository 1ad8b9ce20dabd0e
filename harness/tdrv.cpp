// Records texts written by the real library.
//   tdrv MODE LIB.so OUTDIR SEED CHUNKS SAMPLES SCOUT_SECONDS CORPUS [--sweep f|d lo hi] [--inputs FILE] [--ryu RYU.so]
// MODE: text  all 70 combinations, both functions, with the numeric results (C09, C10, C15, C16)
//       buf   the buffer and its surroundings before and after one call (C11)
//       ryu   default text against the vendored Ryu (C20)
#include "common.hpp"
#include "oracle.hpp"
#include "gens.hpp"
#include <sys/mman.h>
using namespace std;
static void (*row)(int, u64, Res*); static void (*one_)(int, u64, int, int, Res*);
static char* (*text)(int, u64, int, int, char*, int); static char* (*deftext)(int, u64, char*, int); static void (*ryu)(int, u64, char*);
static bool finite_nz(int f, u64 b) { u64 m = b & ~signbit_of(f); return okmag(f, m); }

// transcription of ToChars!Render, for choosing what to record
static int render(char* o, const Res& r) { char* p = o; if (r.neg) *p++ = '-'; char t[24]; int n = 0; u64 v = r.sig; do { t[n++] = '0' + v % 10; v /= 10; } while (v);
  *p++ = t[n - 1]; if (n > 1) { *p++ = '.'; for (int i = n - 2; i >= 0; i--) *p++ = t[i]; } *p++ = 'E'; int e = r.exp + n - 1; if (e < 0) { *p++ = '-'; e = -e; }
  n = 0; do { t[n++] = '0' + e % 10; e /= 10; } while (e); while (n) *p++ = t[--n]; return p - o; }
static int special(char* o, int f, u64 b) { u64 m = b & ~signbit_of(f); bool neg = b != m; u64 inf = FMT[f].maxmag + 1; const char* s = m == 0 ? (neg ? "-0E0" : "0E0") : m == inf ? (neg ? "-Infinity" : "Infinity") : "NaN"; strcpy(o, s); return strlen(s); }

static string textevent(int f, u64 b) {
  Res r[NC]; bool fin_ = finite_nz(f, b); if (fin_) { enter(f, b); row(f, b, r); leave(); }
  string o = "{\"k\":\"text\",\"f\":" + to_string(f) + ",\"b\":"; put_limbs(o, b); o += ",\"c\":["; string rs = "["; vector<Res> c;
  if (fin_) for (int i = 0; i < NC; i++) { size_t j = 0; for (; j < c.size(); j++) if (c[j].sig == r[i].sig && c[j].exp == r[i].exp && c[j].neg == r[i].neg) break;
    if (j == c.size()) { if (j) o += ','; o += "[" + to_string(r[i].neg) + ","; put_limbs(o, r[i].sig); o += "," + to_string(r[i].exp) + "]"; c.push_back(r[i]); } if (i) rs += ','; rs += to_string(j + 1); }
  o += "],\"r\":" + rs + "],"; vector<string> t; string idx[2];
  for (int z = 0; z < 2; z++) for (int i = 0; i < NC; i++) { char buf[256]; memset(buf, z ? 0x5a : 0xa5, sizeof buf); char* p0 = buf + 64; enter(f, b); char* e = text(f, b, i / 5, i % 5, p0, z); leave();
    long n; if (z) n = strnlen(p0, 80); else n = e - p0; if (n < 0) n = 0; if (n > 80) n = 80; string s(p0, n); size_t j = 0; for (; j < t.size(); j++) if (t[j] == s) break; if (j == t.size()) t.push_back(s); if (i) idx[z] += ','; idx[z] += to_string(j + 1); }
  o += "\"t\":["; for (size_t j = 0; j < t.size(); j++) { if (j) o += ','; put_bytes(o, t[j].data(), t[j].size()); } o += "],\"x\":[" + idx[0] + "],\"y\":[" + idx[1] + "]}\n"; return o; }
static bool textodd(int f, u64 b, bool all) { Res r[NC]; bool fin_ = finite_nz(f, b); if (fin_) { enter(f, b); row(f, b, r); leave(); } char want[64]; int n = 0; const Res* last = nullptr;
  if (!fin_) n = special(want, f, b);
  for (int i = 0; i < NC; i += all ? 1 : 1 + (b % 7)) { if (fin_ && (!last || last->sig != r[i].sig || last->exp != r[i].exp || last->neg != r[i].neg)) { n = render(want, r[i]); last = &r[i]; }
    char buf[128]; int z = (b >> 3 ^ i) & 1; buf[32 + n] = 'x'; enter(f, b); char* e = text(f, b, i / 5, i % 5, buf + 32, z); leave(); if (e - buf != 32 + n || memcmp(buf + 32, want, n) || (z && *e)) return true; }
  return false; }

// C11: memory with unreadable pages on both sides
struct Arena { char* p; size_t pg; Arena() { pg = sysconf(_SC_PAGESIZE); p = (char*)mmap(0, 3 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p, pg, PROT_NONE); mprotect(p + 2 * pg, pg, PROT_NONE); } char* lo() { return p + pg; } char* hi() { return p + 2 * pg; } };
static Arena* arena() { static thread_local Arena a; return &a; }
struct Buf { int f; u64 b; int m, t, z, fill, place; };
static u64 fillword(int fill, int i) { switch (fill) { case 0: return 0; case 1: return 0xff; case 2: return 'E'; case 3: return '0'; case 4: return (i * 37 + 11) & 255; case 5: return '.'; default: return '-'; } }
// place 0..7: middle, that alignment; 8: exactly before an unmapped page; 9: right after one
static string bufevent(const Buf& q, bool* odd) {
  Arena* A = arena(); const int R = 40; int n = 0; Res r{}; char want[64]; bool fin_ = finite_nz(q.f, q.b);
  enter(q.f, q.b);
  if (fin_) { one_(q.f, q.b, q.m, q.t, &r); n = render(want, r); } else n = special(want, q.f, q.b);
  int full = n + q.z; char* at = q.place < 8 ? A->lo() + 1024 + q.place : q.place == 8 ? A->hi() - full : A->lo();
  char* lo = q.place == 9 ? at : at - R; char* hi = q.place == 8 ? at + full : at + 32 + R; int len = hi - lo;
  for (int i = 0; i < len; i++) lo[i] = (char)fillword(q.fill, i); char before[160]; memcpy(before, lo, len);
  char* e = text(q.f, q.b, q.m, q.t, at, q.z); leave();
  bool bad = e != at + n || memcmp(at, want, n) || (q.z && at[n]); for (int i = 0; i < len; i++) if ((lo + i < at || lo + i >= at + full) && lo[i] != before[i]) bad = true;
  if (odd) { *odd = bad; if (!bad) return ""; }
  string o = "{\"k\":\"buf\",\"f\":" + to_string(q.f) + ",\"b\":"; put_limbs(o, q.b); o += ",\"c\":"; if (fin_) { o += "[" + to_string(r.neg) + ","; put_limbs(o, r.sig); o += "," + to_string(r.exp) + "]"; } else o += "[]";
  long ret = e - lo + 1; if (ret < -1000 || ret > 1000) ret = -1000;
  o += ",\"m\":" + to_string(q.m) + ",\"p\":" + to_string(q.t) + ",\"fill\":" + to_string(q.fill) + ",\"place\":" + to_string(q.place) + ",\"z\":" + to_string(q.z) + ",\"at\":" + to_string(at - lo + 1) + ",\"ret\":" + to_string(ret) + ",\"before\":"; put_bytes(o, before, len); o += ",\"after\":"; put_bytes(o, lo, len); o += "}\n"; return o; }

static bool ryuodd(int f, u64 b) { char a[64], c[64]; memset(a, 1, sizeof a); memset(c, 1, sizeof c); enter(f, b); deftext(f, b, a, 1); ryu(f, b, c); leave(); return strncmp(a, c, 64) != 0; }
static string ryuevent(int f, u64 b) { char a[64], c[64]; memset(a, 1, sizeof a); memset(c, 1, sizeof c); enter(f, b); deftext(f, b, a, 1); ryu(f, b, c); leave();
  string o = "{\"k\":\"ryu\",\"f\":" + to_string(f) + ",\"b\":"; put_limbs(o, b); o += ",\"lib\":"; put_bytes(o, a, strnlen(a, 64)); o += ",\"ryu\":"; put_bytes(o, c, strnlen(c, 64)); o += "}\n"; return o; }

static u64 specialbits(int f, u64 i, Rng& r) { u64 inf = FMT[f].maxmag + 1, sb = signbit_of(f), P = FMT[f].P, one = u64(1) << P; u64 m;
  switch (i % 8) { case 0: m = 0; break; case 1: m = inf; break; case 2: m = inf + (one >> 1); break; case 3: m = inf + 1; break; case 4: m = inf + one - 1; break; case 5: m = inf + (one >> 1) - 1; break; case 6: m = inf + (u64(1) << r.below(P)); break; default: m = inf + 1 + r.below(one - 1); }
  return (i / 8) & 1 ? m | sb : m; }

int main(int argc, char** argv) {
  if (argc < 9) return 2; string mode = argv[1]; outdir = argv[3]; u64 seed = strtoull(argv[4], 0, 10); int chunks = atoi(argv[5]); u64 samples = strtoull(argv[6], 0, 10); double secs = atof(argv[7]); string corpus = argv[8];
  string sweep, inputs, ryulib; u64 slo = 0, shi = 0; for (int i = 9; i < argc; i++) { string a = argv[i]; if (a == "--sweep") { sweep = argv[i + 1]; slo = strtoull(argv[i + 2], 0, 0); shi = strtoull(argv[i + 3], 0, 0); i += 3; } else if (a == "--inputs") inputs = argv[++i]; else if (a == "--ryu") ryulib = argv[++i]; }
  void* h = opn(argv[2]); symb(h, "vi_row", row); symb(h, "vi_one", one_); symb(h, "vi_text", text); symb(h, "vi_deftext", deftext); if (mode == "ryu") symb(opn(ryulib.c_str()), "vi_ryu", ryu);
  watch_setup(); pow5(); Gens G; G.load(corpus); thread dog(watchdog); Rng r(seed * 7777 + 3);
  vector<string> ev; u64 nscout = 0; atomic<u64> cnt{0}; Sus sus; auto t0 = Clk::now(); auto over = [&] { return chrono::duration<double>(Clk::now() - t0).count() > secs; };
  auto input = [&](u64 i, Rng& r, int f) -> u64 { if (i % 11 == 10) return specialbits(f, r.next(), r); int k = r.below(Gens::NKIND + 2); u64 m = G.gen(f, k < Gens::NKIND ? k : Gens::DIGITS, r.next(), r); return r.below(2) ? m | signbit_of(f) : m; };
  auto rbuf = [&](u64 i, Rng& r) { Buf q; q.f = r.below(2); q.b = input(i, r, q.f); q.m = r.below(NM); q.t = r.below(NT); q.z = r.below(2); q.fill = r.below(7); q.place = r.below(4) ? r.below(2) + 8 : r.below(8); return q; };
  vector<Buf> bsus; mutex mu;
  if (!inputs.empty()) { FILE* in = fopen(inputs.c_str(), "r"); if (!in) return 2; int f; unsigned long long b; int m, t, z, fill, place;
    if (mode == "buf") { while (fscanf(in, "%d %llu %d %d %d %d %d", &f, &b, &m, &t, &z, &fill, &place) == 7) ev.push_back(bufevent({f, b, m, t, z, fill, place}, 0)); }
    else while (fscanf(in, "%d %llu", &f, &b) == 2) ev.push_back(mode == "ryu" ? ryuevent(f, b) : textevent(f, b)); fclose(in); }
  set<pair<int, u64>> seen; auto rec = [&](int f, u64 b) { if (seen.insert({f, b}).second) ev.push_back(mode == "ryu" ? ryuevent(f, b) : textevent(f, b)); };
  if (samples) { if (mode != "buf") for (int f = 0; f < 2; f++) for (u64 i = 0; i < 64; i++) rec(f, specialbits(f, i, r));
    for (u64 i = 0; i < samples; i++) if (mode == "buf") ev.push_back(bufevent(rbuf(i, r), 0)); else { int f = r.below(2); rec(f, input(i, r, f)); } }
  size_t nsample = ev.size();
  if (!sweep.empty()) { int f = sweep == "d"; atomic<u64> blk{0}; workers([&](int) { const u64 B = 1 << 14; u64 c = 0; const u64 nb = (shi - slo + B - 1) / B; while (true) { u64 k = blk.fetch_add(1); if (k >= nb || (secs > 0 && over())) break; u64 lo = slo + scatter(k, nb, seed) * B; for (u64 b = lo; b < lo + B && b < shi; b++) { c++; if (mode == "ryu" ? ryuodd(f, b) : textodd(f, b, false)) sus.add(f, b); } } cnt += c; }); }
  else if (secs > 0) workers([&](int t) { Rng r(seed * 991 + t * 13 + 5); u64 c = 0; for (u64 i = 0;; i++) { if ((i & 127) == 0 && over()) break; c++;
      if (mode == "buf") { Buf q = rbuf(i, r); bool odd = false; bufevent(q, &odd); if (odd) { lock_guard<mutex> g(mu); if (bsus.size() < 200) bsus.push_back(q); } continue; }
      int f = r.below(4) != 0; u64 b = input(i, r, f); if (mode == "ryu" ? ryuodd(f, b) : textodd(f, b, true)) sus.add(f, b); } cnt += c; });
  for (auto& e : sus.v) rec(e.first, e.second); for (auto& q : bsus) ev.push_back(bufevent(q, 0));
  nscout = cnt; write_chunks(ev, chunks); fin = true; dog.join();
  printf("{\"events\":%zu,\"sampled\":%zu,\"scouted\":%llu,\"flagged\":%llu}\n", ev.size(), nsample, (unsigned long long)nscout, (unsigned long long)(sus.found + bsus.size())); return 0; }
