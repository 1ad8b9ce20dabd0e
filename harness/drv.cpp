// Runs the real library on many inputs and records conversions as trace events.
//   drv LIB.so OUTDIR SEED CHUNKS SAMPLES SCOUT_SECONDS CORPUS [--sweep f|d lo hi] [--inputs FILE]
// Sampled inputs (every generator gets its share) and every input the scout finds worth a look become events.
#include "abi.h"
#include "emit.hpp"
#include "oracle.hpp"
#include "gens.hpp"
#include "common.hpp"
using namespace std;
static void (*row)(int, u64, Res*);
static inline void call(int f, u64 b, Res* o) { enter(f, b); row(f, b, o); leave(); }

enum { A_RT, A_SHORT, A_CLOSE, A_TIE, A_STATIC, A_SIGN, A_ANYLEN, A_SIZE, A_ORDER, NA };
static const char* AN[] = {"roundtrip", "shorter", "closer", "tie", "static", "sign", "anylen", "size", "order"};
static inline u32 inspect(Judge& J, int f, u64 mag, const Res* p, const Res* n) {
  u32 a = 0; J.init(f, mag);
  for (int s = 0; s < 2; s++) { const Res* r = s ? n : p; if (!r) continue;
    for (int i = 0; i < NC; i++) { int j = J.judge(i / 5, s, i % 5, r[i].sig, r[i].exp);
      if (j) { if (j & 1) a |= 1 << A_RT; if (j & 2) a |= 1 << A_SHORT; if (j & 4) a |= 1 << A_CLOSE; if (j & 8) a |= 1 << A_TIE; }
      if (r[i].neg != s) a |= 1 << A_SIGN; }
    for (int m = 6; m < 10; m++) for (int t = 0; t < 5; t++) { const Res &x = r[m * 5 + t], &y = r[(m - 6) * 5 + t]; if (x.sig != y.sig || x.exp != y.exp || x.neg != y.neg) if (t || ndig(x.sig) != ndig(y.sig)) a |= 1 << A_STATIC; }
    for (int m = 0; m < 14; m++) { int d = ndig(r[m * 5].sig); for (int t = 1; t < 5; t++) if (r[m * 5 + t].sig != r[m * 5].sig && ndig(r[m * 5 + t].sig) != d) a |= 1 << A_ANYLEN; }
    u64 lim = f ? P10[17] : P10[9]; for (int i = 0; i < NC; i++) if (r[i].sig >= lim) a |= 1 << A_SIZE; }
  if (p && n) { static const int mir[14] = {0, 1, 3, 2, 4, 5, 6, 7, 9, 8, 11, 10, 12, 13};
    for (int m = 0; m < 14; m++) for (int t = 0; t < 5; t++) { const Res &x = p[mir[m] * 5 + t], &y = n[m * 5 + t]; if (x.sig != y.sig || x.exp != y.exp) a |= 1 << A_SIGN; } }
  return a; }
static bool decless(const Res& a, const Res& b) { // a < b, conservative: compares exactly via u128 when close
  int d = a.exp - b.exp; if (d == 0) return a.sig < b.sig; if (d > 18 || d < -18) return d < 0;
  return d > 0 ? (u128)a.sig * P10[d] < b.sig : a.sig < (u128)b.sig * P10[-d]; }

struct Ev { int f; u64 b; };
static string event(int f, u64 mag) {
  static thread_local Res r[3][NC]; call(f, mag, r[0]); call(f, mag | signbit_of(f), r[1]); bool up = mag < FMT[f].maxmag; if (up) call(f, mag + 1, r[2]);
  vector<Res> c; string o = "{\"k\":\"conv\",\"f\":" + to_string(f) + ",\"b\":"; put_limbs(o, mag); string rows[3];
  for (int k = 0; k < 2 + up; k++) { string& s = rows[k]; s = "["; for (int i = 0; i < NC; i++) { size_t j = 0; for (; j < c.size(); j++) if (c[j].sig == r[k][i].sig && c[j].exp == r[k][i].exp && c[j].neg == r[k][i].neg) break; if (j == c.size()) c.push_back(r[k][i]); if (i) s += ','; s += to_string(j + 1); } s += "]"; }
  o += ",\"c\":["; for (size_t j = 0; j < c.size(); j++) { if (j) o += ','; o += "[" + to_string(c[j].neg) + ","; put_limbs(o, c[j].sig); o += "," + to_string(c[j].exp) + "]"; }
  o += "],\"r\":" + rows[0] + ",\"n\":" + rows[1]; if (up) o += ",\"u\":" + rows[2]; else o += ",\"u\":[]"; o += "}\n"; return o; }

int main(int argc, char** argv) {
  if (argc < 8) return 2;
  outdir = argv[2]; u64 seed = strtoull(argv[3], 0, 10); int chunks = atoi(argv[4]); u64 samples = strtoull(argv[5], 0, 10); double secs = atof(argv[6]); string corpus = argv[7];
  string sweep, inputs; u64 slo = 0, shi = 0; bool last = false; int fsel = 2, extra = 120;
  for (int i = 8; i < argc; i++) { string a = argv[i]; if (a == "--sweep") { sweep = argv[i + 1]; slo = strtoull(argv[i + 2], 0, 0); shi = strtoull(argv[i + 3], 0, 0); i += 3; } else if (a == "--last-first") last = true; else if (a == "--inputs") inputs = argv[++i]; else if (a == "--cap") extra = atoi(argv[++i]); }
  symb(opn(argv[1]), "vi_row", row); watch_setup();
  pow5(); Gens G; G.load(corpus); int NTH = nthreads();
  thread dog(watchdog);
  vector<Ev> evs; set<pair<int, u64>> seen; auto add = [&](int f, u64 b) { if (seen.insert({f, b}).second) evs.push_back({f, b}); };
  if (!inputs.empty()) { FILE* in = fopen(inputs.c_str(), "r"); if (!in) return 2; int f; unsigned long long b; while (fscanf(in, "%d %llu", &f, &b) == 2) add(f, b & ~signbit_of(f)); fclose(in); }
  // samples: every generator and format in turn
  { u64 per = samples / (Gens::NKIND * 2) + 1; if (!samples) per = 0; Rng r(seed * 1000003 + 17);
    for (int k = 0; k < Gens::NKIND; k++) for (int f = 0; f < 2; f++) { u64 sz = k == Gens::EDGE ? G.edge[f].size() : k == Gens::HARD ? G.hard[f].size() : 0;
      for (u64 i = 0; i < per; i++) { u64 idx = sz > per ? r.below(sz) : i; add(f, G.gen(f, k, idx, r)); } } }
  size_t nsample = evs.size();
  // scout
  mutex mu; atomic<u64> nscout{0}; u64 found[NA] = {0}; vector<Ev> sus; auto t0 = Clk::now(); atomic<u64> nextblk{0};
  auto suspicious = [&](u32 a, int f, u64 b) { lock_guard<mutex> g(mu); bool take = false; for (int k = 0; k < NA; k++) if (a >> k & 1) { if (found[k]++ < (u64)extra) take = true; } if (take) sus.push_back({f, b}); };
  if (secs > 0 || !sweep.empty()) { vector<thread> th;
    for (int t = 0; t < NTH; t++) th.emplace_back([&, t] { me_ = t; Judge J; Res p[NC], n[NC]; u64 cnt = 0;
      auto look = [&](int f, u64 b, int how) { call(f, b, p); Res* q = nullptr; if (how) { call(f, b | signbit_of(f), n); q = n; } u32 a = inspect(J, f, b, p, q);
        if (how == 2 && b < FMT[f].maxmag) { call(f, b + 1, n); for (int i = 0; i < NC; i++) if (!decless(p[i], n[i])) { a |= 1 << A_ORDER; break; } }
        if (a) suspicious(a, f, b); cnt++; };
      if (!sweep.empty()) { int f = sweep == "d"; const u64 B = 1 << 14; const u64 nb = (shi - slo + B - 1) / B; while (true) { u64 k = nextblk.fetch_add(1); if (k >= nb) break; u64 lo = slo + scatter(last ? nb - 1 - k : k, nb, seed) * B; for (u64 b = lo; b < lo + B && b < shi; b++) if (okmag(f, b)) look(f, b, (b & 15) == 0 ? 2 : 0); if (secs > 0 && chrono::duration<double>(Clk::now() - t0).count() > secs) break; } }
      else { Rng r(seed * 7919 + 31 * t + 1);
        // every edge and hard input once, split among threads
        for (int f = 0; f < 2; f++) { for (size_t i = t; i < G.edge[f].size(); i += NTH) look(f, G.edge[f][i], 1 + (i & 1)); for (size_t i = t; i < G.hard[f].size(); i += NTH) look(f, G.hard[f][i], 1 + (i & 1)); }
        static const int w[] = {Gens::UNI, Gens::MULT, Gens::STRUCT, Gens::UNI, Gens::SHORT, Gens::MULT, Gens::INTS, Gens::SUB, Gens::NEIGH, Gens::MULT, Gens::TAIL, Gens::DIGITS, Gens::WORDS};
        u64 i = 0; while (true) { if ((i & 255) == 0 && chrono::duration<double>(Clk::now() - t0).count() > secs) break;
          int k = w[i % 13], f = (i / 13) % 4 != 0; if (k == Gens::SUB && i % 3) k = Gens::MULT; look(f, G.gen(f, k, r.next(), r), (i & 7) == 0 ? 1 + (i & 1) : (i & 15) == 3 ? 2 : (i & 1)); i++; } }
      nscout += cnt; });
    for (auto& x : th) x.join(); }
  for (auto& e : sus) add(e.f, e.b);
  // write events
  vector<FILE*> fo; for (int i = 0; i < chunks; i++) fo.push_back(fopen((outdir + "/chunk-" + to_string(i) + ".ndjson").c_str(), "w"));
  me_ = 64; vector<string> smp; for (size_t i = 0; i < evs.size(); i++) { size_t j = evs.size() - 1 - i; string s = event(evs[j].f, evs[j].b); fputs(s.c_str(), fo[i % chunks]); }
  for (auto f : fo) fclose(f);
  fin = true; dog.join();
  printf("{\"events\":%zu,\"sampled\":%zu,\"scouted\":%llu,\"conversions\":%llu,\"flagged\":{", evs.size(), nsample, (unsigned long long)nscout.load(), (unsigned long long)nscout.load() * NC);
  for (int k = 0; k < NA; k++) printf("%s\"%s\":%llu", k ? "," : "", AN[k], (unsigned long long)found[k]); printf("}}\n");
  return 0; }
