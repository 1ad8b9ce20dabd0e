// Records inspections, handler calls, call forms and short decimals of the real library.
//   mdrv MODE LIB.so OUTDIR SEED CHUNKS SAMPLES SCOUT_SECONDS CORPUS [--sweep f|d lo hi] [--inputs FILE]
// MODE: insp (C14)  handler (C19)  forms (C23)  short (C18)
#include "common.hpp"
#include "gens.hpp"
#include <math.h>
#include <sys/wait.h>
using namespace std;
static void (*inspect_)(int, u64, Insp*); static void (*forms_)(int, u64, int, int, Forms*); static void (*handler_)(int, u64, int, int, int, HCalls*); static void (*own_)(int, u64, int);
static void (*default_)(int, u64, Res*); static char* (*deftext)(int, u64, char*, int);
struct In { int f; u64 b; int m, t, k; };
static string hd(const char* k, int f, u64 b) { string o = string("{\"k\":\"") + k + "\",\"f\":" + to_string(f) + ",\"b\":"; put_limbs(o, b); return o; }
static string cc(const Res& r) { string o = "[" + to_string(r.neg) + ","; put_limbs(o, r.sig); return o + "," + to_string(r.exp) + "]"; }

// ---- C14
static bool insp_odd(int f, u64 b) { Insp v; enter(f, b); inspect_(f, b, &v); leave(); int P = FMT[f].P; u64 fr = b & ((u64(1) << P) - 1), ex = (b >> P) & ((1u << FMT[f].EB) - 1), mx = (1u << FMT[f].EB) - 1; int neg = (b & signbit_of(f)) != 0, nan = ex == mx && fr, inf = ex == mx && !fr, q = nan && (fr >> (P - 1));
  return v.f != b || v.back != b || v.finite != (ex != mx) || v.nonzero != (ex || fr) || v.subnormal != (ex == 0) || v.positive != !neg || v.negative != neg || v.inf != inf || v.pinf != (inf && !neg) || v.ninf != (inf && neg) || v.nan != nan || v.qnan != q || v.snan != (nan && !q) || v.sig != fr || v.exp != ex || v.paylen != P - 1 || v.payn != P - 1 || v.payload != (fr & ((u64(1) << (P - 1)) - 1)); }
static string insp_event(int f, u64 b) { Insp v; enter(f, b); inspect_(f, b, &v); leave(); string o = hd("insp", f, b) + ",\"v\":{\"f\":"; put_limbs(o, v.f); o += ",\"back\":"; put_limbs(o, v.back); o += ",\"sig\":"; put_limbs(o, v.sig); o += ",\"payload\":"; put_limbs(o, v.payload);
  auto n = [&](const char* k, long x) { o += string(",\"") + k + "\":" + to_string(x); }; n("exp", v.exp); n("finite", v.finite); n("nonzero", v.nonzero); n("subnormal", v.subnormal); n("positive", v.positive); n("negative", v.negative); n("inf", v.inf); n("pinf", v.pinf); n("ninf", v.ninf); n("nan", v.nan); n("qnan", v.qnan); n("snan", v.snan); n("paylen", v.paylen == v.payn ? v.paylen : -1); return o + "}}\n"; }

// ---- C23
static string forms_event(const In& q, bool* odd) { Forms F; enter(q.f, q.b); forms_(q.f, q.b, q.m, q.t, &F); leave(); u64 neg = q.b & signbit_of(q.f);
  if (odd) { *odd = false; for (int i = 1; i < F.n; i++) if (F.r[i].sig != F.r[0].sig || F.r[i].exp != F.r[0].exp || (F.sgn[i] && F.r[i].neg != (neg != 0))) *odd = true; for (int i = 1; i < F.nt; i++) if (strcmp(F.text[i], F.text[0])) *odd = true; if (!*odd) return ""; }
  int s0 = 0; for (int i = 0; i < F.n; i++) if (F.sgn[i]) { s0 = F.r[i].neg; break; }
  vector<Res> c; string rs = "[", gs = "["; bool g1 = true; for (int i = 0; i < F.n; i++) { Res x = F.r[i]; if (!F.sgn[i]) x.neg = s0; size_t j = 0; for (; j < c.size(); j++) if (c[j].sig == x.sig && c[j].exp == x.exp && c[j].neg == x.neg) break; if (j == c.size()) c.push_back(x); if (i) rs += ','; rs += to_string(j + 1); if (F.sgn[i]) { if (!g1) gs += ','; g1 = false; gs += to_string(x.neg); } }
  string o = hd("forms", q.f, q.b) + ",\"m\":" + to_string(q.m) + ",\"p\":" + to_string(q.t) + ",\"c\":["; for (size_t j = 0; j < c.size(); j++) { if (j) o += ','; o += cc(c[j]); } o += "],\"r\":" + rs + "],\"g\":" + gs + "],\"t\":["; for (int i = 0; i < F.nt; i++) { if (i) o += ','; put_bytes(o, F.text[i], strnlen(F.text[i], 63)); } return o + "],\"dflt\":" + (q.m == 0 && q.t == 1 ? "1" : "0") + "}\n"; }

// ---- C19
static string handler_event(const In& q, bool* odd) { string h, end; HCalls H; H.n = 0; enter(q.f, q.b);
  if (q.k < 8) { handler_(q.f, q.b, q.m, q.t, q.k, &H); h = q.k < 4 ? "recording" : "throwing"; end = H.threw ? "threw" : "returned"; leave(); if (odd) { *odd = H.n != 1 || H.bits[0] != q.b || H.threw != (q.k >= 4); if (!*odd) return ""; } }
  else { h = q.k == 9 ? "ignoring" : "default"; pid_t p = fork(); if (p == 0) { for (int s : {SIGABRT, SIGSEGV, SIGILL, SIGTRAP}) signal(s, SIG_DFL); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); own_(q.f, q.b, q.k - 8); _exit(0); } int st = 0; waitpid(p, &st, 0); leave(); end = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "returned" : WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? "aborted" : "crashed"; if (odd) { *odd = false; return ""; } }
  string o = hd("handler", q.f, q.b) + ",\"m\":" + to_string(q.m) + ",\"p\":" + to_string(q.t) + ",\"kind\":" + to_string(q.k) + ",\"h\":\"" + h + "\",\"calls\":["; for (int i = 0; i < H.n && i < 8; i++) { if (i) o += ','; put_limbs(o, H.bits[i]); } return o + "],\"end\":\"" + end + "\"}\n"; }

// ---- C18: m is the decimal exponent, b the digits, t the sign
static u64 readit(int f, u64 s, int E, int g) { char t[64]; snprintf(t, sizeof t, "%s%lluE%d", g ? "-" : "", (unsigned long long)s, E); u64 b = 0; if (f) { double d = strtod(t, 0); memcpy(&b, &d, 8); } else { float d = strtof(t, 0); u32 u; memcpy(&u, &d, 4); b = u; } return b; }
static bool normal(int f, u64 b) { u64 m = b & ~signbit_of(f); return m >> FMT[f].P && m <= FMT[f].maxmag; }
static string short_event(const In& q, bool* odd) { u64 b = readit(q.f, q.b, q.m, q.t); if (!normal(q.f, b)) { if (odd) *odd = false; return ""; } Res r; enter(q.f, b); default_(q.f, b, &r); leave();
  if (odd) { u64 s = q.b; int E = q.m; while (s % 10 == 0) s /= 10, E++; *odd = r.sig != s || r.exp != E || r.neg != q.t; if (!*odd) return ""; }
  char t[64]; memset(t, 1, sizeof t); enter(q.f, b); deftext(q.f, b, t, 1); leave(); string o = hd("short", q.f, b) + ",\"s\":"; put_limbs(o, q.b); o += ",\"E\":" + to_string(q.m) + ",\"g\":" + to_string(q.t) + ",\"c\":" + cc(r) + ",\"t\":"; put_bytes(o, t, strnlen(t, 64)); return o + "}\n"; }
static In rshort(u64 i, Rng& r) { In q; q.f = i & 1; int lim = q.f ? 15 : 6, nd = r.below(3) ? r.range(1, lim) : lim; static const u64 T[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull, 1000000000000000ull};
  q.b = T[nd - 1] + r.below(T[nd] - T[nd - 1]); switch (r.below(5)) { case 0: q.b = T[nd] - 1 - r.below(nd > 1 ? 3 : 1); break; case 1: q.b = T[nd - 1] + r.below(3); break; case 2: q.b = q.b / T[nd / 2] * T[nd / 2]; break; }
  if (!q.b) q.b = 1; q.m = q.f ? r.range(-308, 308) - nd + 1 : r.range(-38, 38) - nd + 1; if (r.below(4) == 0) q.m = 0; if (r.below(4) == 0) q.m = -r.range(0, nd + 3); q.t = r.below(2); q.k = 0; return q; }

int main(int argc, char** argv) {
  if (argc < 9) return 2; string mode = argv[1]; outdir = argv[3]; u64 seed = strtoull(argv[4], 0, 10); int chunks = atoi(argv[5]); u64 samples = strtoull(argv[6], 0, 10); double secs = atof(argv[7]); string corpus = argv[8];
  string sweep, inputs; u64 slo = 0, shi = 0; for (int i = 9; i < argc; i++) { string a = argv[i]; if (a == "--sweep") { sweep = argv[i + 1]; slo = strtoull(argv[i + 2], 0, 0); shi = strtoull(argv[i + 3], 0, 0); i += 3; } else if (a == "--inputs") inputs = argv[++i]; }
  void* h = opn(argv[2]); if (mode == "insp") symb(h, "vi_inspect", inspect_); else if (mode == "forms") symb(h, "vi_forms", forms_); else if (mode == "handler") { symb(h, "vi_handler", handler_); symb(h, "vi_own", own_); } else { symb(h, "vi_default", default_); symb(h, "vi_deftext", deftext); }
  watch_setup(); Gens G; G.load(corpus); thread dog(watchdog);
  auto anybits = [&](u64 i, Rng& r, int f, bool special) -> u64 { u64 inf = FMT[f].maxmag + 1, one = u64(1) << FMT[f].P, m; if (special && i % 4 == 3) { switch (r.below(7)) { case 0: m = 0; break; case 1: m = inf; break; case 2: m = inf + 1 + r.below(one - 1); break; case 3: m = inf + (u64(1) << r.below(FMT[f].P)); break; case 4: m = inf + one - 1; break; case 5: m = inf + one / 2 - r.below(2); break; default: m = inf + one / 2 + r.below(2); } }
    else m = G.gen(f, (int)r.below(Gens::NKIND), r.next(), r); return r.below(2) ? m | signbit_of(f) : m; };
  auto gen = [&](u64 i, Rng& r) { if (mode == "short") return rshort(i, r); In q; q.f = r.below(2); q.m = r.below(NM); q.t = r.below(NT); q.k = 0; if (mode == "insp") q.b = anybits(i, r, q.f, true); else if (mode == "forms") { q.b = anybits(i, r, q.f, false); if (r.below(3) == 0) q.m = 0, q.t = 1; }
    else { q.k = r.below(8); q.b = anybits(i, r, q.f, q.k >= 4); } return q; };
  auto event = [&](const In& q) { return mode == "insp" ? insp_event(q.f, q.b) : mode == "forms" ? forms_event(q, 0) : mode == "handler" ? handler_event(q, 0) : short_event(q, 0); };
  auto odd = [&](const In& q) { bool o = false; if (mode == "insp") return insp_odd(q.f, q.b); if (mode == "forms") forms_event(q, &o); else if (mode == "handler") handler_event(q, &o); else short_event(q, &o); return o; };
  vector<string> ev; Rng r(seed * 4242 + 1);
  if (!inputs.empty()) { FILE* in = fopen(inputs.c_str(), "r"); if (!in) return 2; In q; unsigned long long b; while (fscanf(in, "%d %llu %d %d %d", &q.f, &b, &q.m, &q.t, &q.k) == 5) { q.b = b; ev.push_back(event(q)); } fclose(in); }
  for (u64 i = 0; i < samples; i++) { string s = event(gen(i, r)); if (!s.empty()) ev.push_back(s); }
  if (mode == "handler" && samples) for (int i = 0; i < 600; i++) { In q; q.f = i & 1; q.m = 0; q.t = 1; q.k = 8 + i / 2 % 3; q.b = anybits(r.next(), r, q.f, true); if (i < 240) { u64 inf = FMT[q.f].maxmag + 1, e[] = {0, 1, inf - 1, inf, inf + 1, inf + (u64(1) << (FMT[q.f].P - 1)), 2 * inf > inf ? inf + (u64(1) << FMT[q.f].P) - 1 : inf, u64(1) << FMT[q.f].P}; q.b = e[i / 6 % 8]; if (i / 48 & 1) q.b |= signbit_of(q.f); }
      u64 m = q.b & ~signbit_of(q.f); if (q.k == 10 && m == 0) continue; if (q.k >= 8) ev.push_back(event(q)); }
  size_t nsample = ev.size(); vector<In> sus; mutex mu; u64 found = 0; auto note_ = [&](const In& q) { lock_guard<mutex> g(mu); if (found++ < 200) sus.push_back(q); };
  atomic<u64> cnt{0}; auto t0 = Clk::now(); auto over = [&] { return chrono::duration<double>(Clk::now() - t0).count() > secs; };
  if (!sweep.empty()) { int f = sweep == "d"; atomic<u64> blk{0}; // insp: patterns; short: float decimals of up to 6 digits (value = digits), all exponents
    workers([&](int) { const u64 B = 1 << 14; u64 c = 0; while (true) { u64 lo = slo + blk.fetch_add(1) * B; if (lo >= shi || (secs > 0 && over())) break; for (u64 b = lo; b < lo + B && b < shi; b++) {
      if (mode == "insp") { c++; if (insp_odd(f, b)) note_({f, b, 0, 0, 0}); }
      else if (b && b % 10) { int a = f ? -308 : -45, z = f ? 308 : 38; for (int E = a; E <= z; E++) { c++; In q{f, b, E, (int)((b ^ E) & 1), 0}; bool o; short_event(q, &o); if (o) note_(q); } } } } cnt += c; }); }
  else if (secs > 0) workers([&](int t) { Rng r(seed * 313 + t * 29 + 7); u64 c = 0; for (u64 i = 0;; i++) { if ((i & 63) == 0 && over()) break; In q = gen(i, r); c++; if (odd(q)) note_(q); } cnt += c; });
  for (auto& q : sus) ev.push_back(event(q));
  write_chunks(ev, chunks); fin = true; dog.join();
  printf("{\"events\":%zu,\"sampled\":%zu,\"scouted\":%llu,\"flagged\":%llu}\n", ev.size(), nsample, (unsigned long long)cnt.load(), (unsigned long long)found); return 0; }
