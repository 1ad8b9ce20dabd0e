// Compiled transcription of spec/Shortest.tla and spec/Rounding.tla, used only to choose which
// recorded conversions are worth handing to TLC.  It never gives a verdict.
#pragma once
#include <stdint.h>
#include <string.h>
#include <vector>
typedef unsigned __int128 u128; typedef uint64_t u64; typedef uint32_t u32;
constexpr int NL = 20;
struct Big { int n; u64 d[NL]; };
static inline void mulp(Big& r, u64 m, const Big& p, int sh) {  // m * p << sh
  int w = sh >> 6, b = sh & 63; u64 c = 0, t[NL]; int k = p.n;
  for (int i = 0; i < k; i++) { u128 x = (u128)m * p.d[i] + c; t[i] = (u64)x; c = (u64)(x >> 64); }
  t[k++] = c;
  for (int i = 0; i < w; i++) r.d[i] = 0;
  u64 prev = 0; int i = 0;
  for (; i < k; i++) { r.d[i + w] = b ? (t[i] << b) | prev : t[i]; prev = b ? t[i] >> (64 - b) : 0; }
  r.d[i + w] = prev; i++;
  int n = i + w; while (n > 0 && r.d[n - 1] == 0) n--; r.n = n; }
static inline int cmpB(const Big& a, const Big& b) {
  if (a.n != b.n) return a.n < b.n ? -1 : 1;
  for (int i = a.n - 1; i >= 0; i--) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1;
  return 0; }
static inline void addB(Big& r, const Big& a, const Big& b) {
  int n = a.n > b.n ? a.n : b.n; u64 c = 0;
  for (int i = 0; i < n; i++) { u128 x = (u128)(i < a.n ? a.d[i] : 0) + (i < b.n ? b.d[i] : 0) + c; r.d[i] = (u64)x; c = (u64)(x >> 64); }
  r.n = n; if (c) r.d[r.n++] = c; }
struct Pow5 { std::vector<Big> t; Pow5() { Big one; memset(&one, 0, sizeof one); one.n = 1; one.d[0] = 1; t.push_back(one);
  for (int i = 1; i < 345; i++) { Big x; memset(&x, 0, sizeof x); mulp(x, 5, t.back(), 0); t.push_back(x); } } };
inline const Pow5& pow5() { static Pow5 p; return p; }
static const u64 P10[] = {1ull,10ull,100ull,1000ull,10000ull,100000ull,1000000ull,10000000ull,100000000ull,1000000000ull,10000000000ull,100000000000ull,1000000000000ull,10000000000000ull,100000000000000ull,1000000000000000ull,10000000000000000ull,100000000000000000ull,1000000000000000000ull};
static inline int ndig(u64 s) { int n = 1; while (n < 19 && s >= P10[n]) n++; return n; }

enum { RT_BAD = 1, SHORT_BAD = 2, CLOSE_BAD = 4, TIE_BAD = 8 };
enum Mode { NE, NO, NPI, NMI, NTZ, NAZ, DPI, DMI, DTZ, DAZ };
static const int READER[14] = {NE, NO, NPI, NMI, NTZ, NAZ, NE, NO, NPI, NMI, DPI, DMI, DTZ, DAZ};

// position of one decimal relative to one (lo, y, hi)
struct Pos { signed char l, h, fl, fh, cl, ch, pl, ph, pq, nl, nh, nq, yq; bool z; };
struct Group { u64 lo, y, hi; };
struct Judge {
  int P, EB; u64 bits; bool edge, even; int b; u64 y4; Group g[3];
  // small caches
  struct CtxE { int E; Big u[3][3]; bool have[3]; const Big* dp; int ds; const Big* mp; int ms; } cx[4]; int ncx = 0;
  struct Ent { int grp; u64 s; int E; Pos p; } en[24]; int nen = 0;
  void init(int fmt, u64 mag) {
    P = fmt ? 52 : 23; EB = fmt ? 11 : 8; bits = mag; ncx = nen = 0;
    u64 fr = mag & ((u64(1) << P) - 1), ex = mag >> P; int bias = (1 << (EB - 1)) - 1; u64 f; int e;
    if (ex) { f = fr | (u64(1) << P); e = int(ex) - bias - P; } else { f = fr; e = 1 - bias - P; }
    edge = fr == 0 && ex > 1; even = !(fr & 1); b = e - 2; y4 = 4 * f;
    g[0] = {y4 - (edge ? 1 : 2), y4, y4 + 2}; g[1] = {y4, y4, y4 + 4}; g[2] = {y4 - (edge ? 2 : 4), y4, y4}; }
  CtxE& ctx(int E) {
    for (int i = 0; i < ncx; i++) if (cx[i].E == E) return cx[i];
    CtxE& c = cx[ncx < 4 ? ncx++ : 3]; c.E = E; auto& p = pow5().t; c.dp = &p[E > 0 ? E : 0]; c.mp = &p[E < 0 ? -E : 0];
    int d = E - b; c.ds = d > 0 ? d : 0; c.ms = d < 0 ? -d : 0; c.have[0] = c.have[1] = c.have[2] = false; return c; }
  void grp(CtxE& c, int k) { if (c.have[k]) return; mulp(c.u[k][0], g[k].lo, *c.mp, c.ms); mulp(c.u[k][1], 2 * g[k].y, *c.mp, c.ms); mulp(c.u[k][2], g[k].hi, *c.mp, c.ms); c.have[k] = true; }
  void calc(Pos& p, int k, u64 s, int E) {
    CtxE& c = ctx(E); grp(c, k); const Big &lo = c.u[k][0], &y2 = c.u[k][1], &hi = c.u[k][2]; Big d, t, sum;
    mulp(d, s, *c.dp, c.ds); p.l = cmpB(d, lo); p.h = cmpB(d, hi);
    p.z = s % 10 == 0;
    if (s >= 10) { mulp(t, s / 10 * 10, *c.dp, c.ds); p.fl = cmpB(t, lo); p.fh = cmpB(t, hi); mulp(t, s / 10 * 10 + 10, *c.dp, c.ds); p.cl = cmpB(t, lo); p.ch = cmpB(t, hi); }
    else { p.fl = -1; p.fh = -1; p.cl = 1; p.ch = 1; }
    { addB(t, d, d); p.yq = cmpB(y2, t); }     // sign of y - d
    // next decimal up
    mulp(t, s + 1, *c.dp, c.ds); p.nl = cmpB(t, lo); p.nh = cmpB(t, hi); addB(sum, t, d); p.nq = cmpB(y2, sum);
    // next decimal down, of the same length
    if (s != 1) { mulp(t, s - 1, *c.dp, c.ds); p.pl = cmpB(t, lo); p.ph = cmpB(t, hi); addB(sum, t, d); p.pq = cmpB(y2, sum); }
    else { CtxE& c2 = ctx(E - 1); grp(c2, k); mulp(t, 9, *c2.dp, c2.ds); p.pl = cmpB(t, c2.u[k][0]); p.ph = cmpB(t, c2.u[k][2]); Big d2; mulp(d2, 10, *c2.dp, c2.ds); addB(sum, t, d2); p.pq = cmpB(c2.u[k][1], sum); } }
  const Pos& pos(int k, u64 s, int E) {
    for (int i = 0; i < nen; i++) if (en[i].s == s && en[i].grp == k && en[i].E == E) return en[i].p;
    Ent& x = en[nen < 24 ? nen++ : 23]; x.grp = k; x.s = s; x.E = E; calc(x.p, k, s, E); return x.p; }
  // lib mode, sign, tie
  int judge(int m, bool neg, int tie, u64 s, int E) {
    if (s == 0 || E < -340 || E > 340 || s >= P10[18]) return RT_BAD | SHORT_BAD | CLOSE_BAD;
    int k = 0; bool lc, hc;
    switch (READER[m]) {
      case NE: lc = hc = even; break; case NO: lc = hc = !even; break;
      case NPI: lc = !neg; hc = neg; break; case NMI: lc = neg; hc = !neg; break;
      case NTZ: lc = false; hc = true; break; case NAZ: lc = true; hc = false; break;
      case DPI: k = neg ? 1 : 2; break; case DMI: k = neg ? 2 : 1; break; case DTZ: k = 1; break; default: k = 2; break; }
    if (k == 1) { lc = true; hc = false; } else if (k == 2) { lc = false; hc = true; }
    const Pos& p = pos(k, s, E);
    auto in = [&](int a, int b2) { return (a > 0 || (a == 0 && lc)) && (b2 < 0 || (b2 == 0 && hc)); };
    if (!in(p.l, p.h)) return RT_BAD;
    int r = 0; if (p.z || in(p.fl, p.fh) || in(p.cl, p.ch)) r |= SHORT_BAD;
    if (r || tie == 0) return r;
    if (in(p.nl, p.nh)) { if (p.nq > 0) r |= CLOSE_BAD; if (p.nq == 0) { if (tie == 3 || (tie == 1 && (s & 1)) || (tie == 2 && !(s & 1))) r |= TIE_BAD; } }
    if (in(p.pl, p.ph)) { if (p.pq < 0) r |= CLOSE_BAD; if (p.pq == 0) { if (tie == 4 || (tie == 1 && (s & 1)) || (tie == 2 && !(s & 1))) r |= TIE_BAD; } }
    return r; }
};
