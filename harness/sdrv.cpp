// Sessions: many conversions in one process, in sequence, nested, on several threads, under chosen schedules.
//   sdrv LIB.so OUTDIR SEED SECONDS CORPUS SCHEDULES [--gentle]
// Every answer is compared with the answer the same request got alone in a process forked for it; recorded
// sessions (samples of every kind, and every one with a deviating answer) become traces for SessionTrace.tla.
#include "session.hpp"
#include <algorithm>
#include <cfenv>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
using namespace std;
struct Rec { char k; int t, a; Out o; };
typedef vector<Rec> Session;
static Out* alone; static u64 seed; static double secs;
struct Stats { atomic<u64> alone, seq, storm, nest, nested, sched, steps, odd, stuck, left; };
static Stats* st;
static void* shared(size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) exit(2); return p; }
static double since(Clk::time_point t) { return chrono::duration<double>(Clk::now() - t).count(); }

// ---- traces -------------------------------------------------------------------------------------------
static void put_out(string& s, const Arg& a, const Out& o) {
  s += '['; if (a.kind == 0 || a.kind == 3) { int e; u64 g; memcpy(&e, o.d + 1, 4); memcpy(&g, o.d + 5, 8); s += to_string(o.d[0]) + "," + to_string(e); while (g) { s += "," + to_string(g & 32767); g >>= 15; } }
  else for (int i = 0; i < o.n && i < 47; i++) { if (i) s += ','; s += to_string(o.d[i]); }
  s += ']'; }
static void write_trace(const string& name, const vector<Session>& ss) {
  if (ss.empty()) return; set<int> used; for (auto& x : ss) for (auto& r : x) used.insert(r.a); string o;
  for (int i : used) { const Arg& a = args[i]; o += "{\"k\":\"alone\",\"a\":" + to_string(i) + ",\"q\":[" + to_string(a.kind) + "," + to_string(a.f) + "," + to_string(a.m) + "," + to_string(a.p) + ",\"" + to_string(a.b) + "\"],\"r\":"; put_out(o, a, alone[i]); o += "}\n"; }
  for (auto& x : ss) { o += "{\"k\":\"begin\"}\n"; for (auto& r : x) { o += string("{\"k\":\"") + (r.k == 'c' ? "call" : r.k == 'l' ? "left" : "ret") + "\",\"t\":" + to_string(r.t) + ",\"a\":" + to_string(r.a); if (r.k == 'r') { o += ",\"r\":"; put_out(o, args[r.a], r.o); } o += "}\n"; } }
  FILE* f = fopen((outdir + "/" + name).c_str(), "w"); fputs(o.c_str(), f); fclose(f); }

// ---- children -----------------------------------------------------------------------------------------
static volatile int last_arg; static void onalarm(int) { note("no return", args[last_arg].f, args[last_arg].b); _exit(3); }
static void oncrash(int sg) { const char* w = sg == SIGABRT ? "assertion or abort" : sg == SIGILL || sg == SIGTRAP ? "undefined behaviour trap" : "memory fault"; note(w, args[last_arg].f, args[last_arg].b); _exit(3); }
template <class Fn> static void in_workers(int n, Fn fn) {
  vector<pid_t> ps; for (int i = 0; i < n; i++) { pid_t p = fork(); if (p < 0) exit(2); if (p == 0) { fn(i); _exit(0); } ps.push_back(p); }
  bool bad = false; for (pid_t p : ps) { int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) { bad = true; if (!WIFEXITED(s) || WEXITSTATUS(s) != 3) { fprintf(stderr, "worker ended with status %x\n", s); exit(2); } } }
  if (bad) exit(3); }

// ---- single stepping ----------------------------------------------------------------------------------
#define TF_ON asm volatile("lea -128(%%rsp),%%rsp\n pushfq\n orq $0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc")
#define TF_OFF asm volatile("lea -128(%%rsp),%%rsp\n pushfq\n andq $~0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc")
struct Thr { atomic<int> turn{0}; atomic<int> back{0}; long quantum = 0; bool nest = false; int nestarg = 0; Out nestout; int arg = -1; Out out; bool done = false, quit = false; };
static thread_local int smode = 0; static thread_local Thr* self;
static const vector<int>* nestlist; static size_t nestpos, nestmax, neststride, nestphase; static Session* nestrec; static bool nestodd; static u64 nestcount;
static void wait_turn(Thr* t) { long n = 0; while (!t->turn.load(memory_order_acquire)) { if (++n > 4000) { n = 0; sched_yield(); } else __builtin_ia32_pause(); } t->turn.store(0, memory_order_relaxed); }
static void give_back(Thr* t) { t->back.store(1, memory_order_release); }
static void ontrap(int, siginfo_t*, void* u) {
  ucontext_t* uc = (ucontext_t*)u; int e = errno;
  if (smode == 1) { st->steps.fetch_add(1, memory_order_relaxed);
    if (nestpos++ % neststride == nestphase && nestcount < nestmax) { int a = (*nestlist)[nestcount % nestlist->size()]; Out o; nestcount++; last_arg = a; run(args[a], o); bool ok = same(o, alone[a]); if (!ok) nestodd = true;
      if (nestrec && (nestrec->size() < 900 || !ok)) { nestrec->push_back({'c', 0, a, {}}); nestrec->push_back({'r', 0, a, o}); } } }
  else if (smode == 2) { if (--self->quantum <= 0) {
      Thr* t = self; for (;;) { give_back(t); wait_turn(t); if (!t->nest) break; smode = 0; run(args[t->nestarg], t->nestout); smode = 2; t->nest = false; }
      if (t->quantum < 0) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; smode = 0; } } }
  else uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
  errno = e; }
static void trap_setup() { struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = ontrap; a.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &a, 0); }

// A conversion under a floating-point environment: bits 0-1 rounding, 2 flush to zero, 3 subnormals are zero, 4 exceptions trap.
// The x87 unit gets the same rounding, and for bit 5 single precision.
static void run_in(int env, const Arg& a, Out& o, void (*cb)(void*) = nothing, void* ctx = nullptr) {
  if (!env) return run(a, o, cb, ctx);
  struct Keep { unsigned m; unsigned short w; Keep() { m = __builtin_ia32_stmxcsr(); asm volatile("fnstcw %0" : "=m"(w)); } ~Keep() { __builtin_ia32_ldmxcsr(m); asm volatile("fnclex\n fldcw %0" : : "m"(w)); } } keep;
  unsigned m = 0x1f80 | (env & 3u) << 13; if (env & 4) m |= 0x8000; if (env & 8) m |= 0x40; if (env & 16) m &= ~0x1f80u;
  unsigned short w = (env & 32) ? 0x7f : 0x37f; w |= (env & 3) << 10; if (env & 16) w &= ~0x3f;
  asm volatile("fnclex\n fldcw %0" : : "m"(w)); __builtin_ia32_ldmxcsr(m); run(a, o, cb, ctx); asm volatile("fwait"); }
struct Away {};
int main(int argc, char** argv) {
  if (argc < 7) return 2;
  void* h = opn(argv[1]); symb(h, "vi_one", L.one); symb(h, "vi_text", L.text); symb(h, "vi_nest", L.nest);
  outdir = argv[2]; seed = strtoull(argv[3], 0, 10); secs = atof(argv[4]); string corpus = argv[5], schedf = argv[6]; bool more = argc > 7 && string(argv[7]) == "--more";
  watch_setup(); for (int s : {SIGSEGV, SIGILL, SIGABRT, SIGFPE, SIGBUS}) signal(s, oncrash); signal(SIGALRM, onalarm);
  Gens G; G.load(corpus); make_args(seed, G, more ? 400 : 110, 48); int N = (int)args.size(), NTH = nthreads();
  alone = (Out*)shared(sizeof(Out) * N); st = (Stats*)shared(sizeof(Stats));
  // every request alone, in a process of its own
  { atomic<int>* next = (atomic<int>*)shared(4096);
    in_workers(NTH, [&](int) { for (;;) { int i = next->fetch_add(1); if (i >= N) return; pid_t p = fork(); if (p < 0) _exit(2); if (p == 0) { alarm(20); last_arg = i; run(args[i], alone[i]); _exit(0); }
        int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) _exit(WIFEXITED(s) ? WEXITSTATUS(s) : 2); st->alone++; } }); }
  // long sessions: one process, many threads, requests of one family close together, other rounding of the floating-point unit
  auto t0 = Clk::now(); static const int rms[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  in_workers(1, [&](int) { mutex mu; vector<Session> out; atomic<u64> ticket{0}; vector<vector<pair<u64, Rec>>> first(NTH); atomic<int> ready{0};
    auto body = [&](int t) { Rng r(seed * 31 + t); ready++; while (ready < NTH) {} u64 cnt = 0; int ring[24], rn = 0; Out ro[24]; int bad = 0; int env = 0;
      while (bad < 4) { if ((cnt & 255) == 0 && since(t0) > secs * 0.28) break;
        const vector<int>& fm = fams[r.below(fams.size())]; int burst = 1 + (int)r.below(40);
        if (r.below(4) == 0) { env = r.below(3) ? (int)r.below(64) : 0; fesetround(rms[r.below(4)]); }
        for (int i = 0; i < burst; i++) { int a = fm[r.below(r.below(2) ? 6 : fm.size())]; Out o; bool rec = cnt < 120; u64 tk = rec ? ticket++ : 0; last_arg = a;
          if (rec) first[t].push_back({tk, {'c', t, a, {}}});
          if (args[a].kind == 3 && r.below(3) == 0) { bool left = false; try { run_in(env, args[a], o, [](void*) { throw Away{}; }); } catch (Away&) { left = true; }
            if (left) { st->left++; cnt++; if (rec) first[t].push_back({ticket++, {'l', t, a, {}}}); ring[rn % 24] = ~a; rn++; continue; } }
          else if (args[a].kind == 3) { int b = fm[r.below(fm.size())]; struct C { int b; Out o; } c{b, {}}; run_in(env, args[a], o, [](void* p) { C* c = (C*)p; run(args[c->b], c->o); }, &c);
            if (!same(c.o, alone[b])) { Session s = {{'c', t, a, {}}, {'c', t, b, {}}, {'r', t, b, c.o}, {'r', t, a, o}}; bad++; st->odd++; lock_guard<mutex> g(mu); out.push_back(s); }
            else if (rec) { first[t].push_back({ticket++, {'c', t, b, {}}}); first[t].push_back({ticket++, {'r', t, b, c.o}}); } }
          else run_in(env, args[a], o);
          if (rec) first[t].push_back({ticket++, {'r', t, a, o}});
          ring[rn % 24] = a; ro[rn % 24] = o; rn++; cnt++;
          if (!same(o, alone[a])) { Session s; for (int k = rn > 24 ? rn - 24 : 0; k < rn; k++) { int q = ring[k % 24]; s.push_back({'c', t, q < 0 ? ~q : q, {}}); if (q < 0) s.push_back({'l', t, ~q, {}}); else s.push_back({'r', t, q, ro[k % 24]}); } bad++; st->odd++; lock_guard<mutex> g(mu); out.push_back(s); if (bad >= 4) break; } } }
      st->seq += cnt; };
    alarm((int)(secs + 60)); vector<thread> th; for (int t = 0; t < NTH; t++) th.emplace_back(body, t); for (auto& x : th) x.join();
    vector<pair<u64, Rec>> all; for (auto& v : first) all.insert(all.end(), v.begin(), v.end()); sort(all.begin(), all.end(), [](auto& x, auto& y) { return x.first < y.first; });
    Session s; for (auto& x : all) s.push_back(x.second); out.push_back(s); write_trace("trace-seq.ndjson", out); });
  // short sessions: the first conversions of a process, several threads at once
  t0 = Clk::now();
  in_workers(max(1, NTH / 2), [&](int w) { struct Slot { atomic<u64> tk; atomic<int> ready; struct { u64 a, b; int arg; Out o; } c[8][6]; }; Slot* sl = (Slot*)shared(sizeof(Slot)); Rng r(seed * 131 + w); vector<Session> out; int odd = 0;
    while (since(t0) < secs * 0.22 && odd < 4) { const vector<int>& fm = fams[r.below(fams.size())]; int nt = 2 + (int)r.below(5), nc = 1 + (int)r.below(5); memset((void*)sl, 0, sizeof *sl); bool mix = r.below(3) == 0;
      for (int t = 0; t < nt; t++) for (int i = 0; i < nc; i++) sl->c[t][i].arg = mix ? (int)r.below(N) : fm[r.below(fm.size())];
      pid_t p = fork(); if (p < 0) _exit(2);
      if (p == 0) { alarm(30); vector<thread> th; for (int t = 0; t < nt; t++) th.emplace_back([=] { sl->ready++; while (sl->ready < nt) __builtin_ia32_pause(); for (int i = 0; i < nc; i++) { auto& c = sl->c[t][i]; last_arg = c.arg; c.a = sl->tk++; run(args[c.arg], c.o); c.b = sl->tk++; } }); for (auto& x : th) x.join(); _exit(0); }
      int s; waitpid(p, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) _exit(WIFEXITED(s) ? WEXITSTATUS(s) : 2);
      bool ok = true; vector<pair<u64, Rec>> ev; for (int t = 0; t < nt; t++) for (int i = 0; i < nc; i++) { auto& c = sl->c[t][i]; if (!same(c.o, alone[c.arg])) ok = false; ev.push_back({c.a, {'c', t, c.arg, {}}}); ev.push_back({c.b, {'r', t, c.arg, c.o}}); }
      st->storm++; if (!ok) { odd++; st->odd++; }
      if (!ok || out.size() < 25) { sort(ev.begin(), ev.end(), [](auto& x, auto& y) { return x.first < y.first; }); Session q; for (auto& x : ev) q.push_back(x.second); out.push_back(q); } }
    write_trace("trace-storm" + to_string(w) + ".ndjson", out); });
  // interrupted after every instruction by another conversion on the same thread
  t0 = Clk::now();
  in_workers(NTH, [&](int w) { trap_setup(); Rng r(seed * 1777 + w); vector<Session> out; int odd = 0; { Out o; for (int i = 0; i < N; i += 7) run(args[i], o); }
    while (since(t0) < secs * 0.25 && odd < 3) { const vector<int>& fm = fams[r.below(fams.size())]; vector<int> list; for (int i = 1 + (int)r.below(6); i--;) list.push_back(r.below(4) ? fm[r.below(fm.size())] : (int)r.below(N));
      int a = fm[r.below(fm.size())]; bool keep = out.size() < 3; Session s; Out o; s.push_back({'c', 0, a, {}}); nestlist = &list; nestpos = nestcount = 0; nestmax = 4000; neststride = keep ? 7 : 1 + r.below(3); nestphase = r.below(neststride); nestodd = false; nestrec = &s;
      alarm(30); last_arg = a; smode = 1; TF_ON; run(args[a], o); TF_OFF; smode = 0; alarm(0); s.push_back({'r', 0, a, o}); st->nest++; st->nested += nestcount;
      bool ok = !nestodd && same(o, alone[a]); if (!ok) { odd++; st->odd++; } if (!ok || keep) { if (!ok && !nestodd && s.size() > 300) s.erase(s.begin() + 1, s.end() - 101); out.push_back(s); } }
    write_trace("trace-nest" + to_string(w) + ".ndjson", out); });
  // chosen schedules of two or three threads, switched between instructions
  vector<vector<pair<int, char>>> scheds; { FILE* f = fopen(schedf.c_str(), "r"); if (!f) return 2; char line[256]; while (fgets(line, sizeof line, f)) { vector<pair<int, char>> v; for (char* p = strtok(line, " \n"); p; p = strtok(0, " \n")) v.push_back({p[0] - '1', p[1]}); if (!v.empty()) scheds.push_back(v); } fclose(f); }
  t0 = Clk::now();
  in_workers(max(1, NTH / 2), [&](int w) { trap_setup(); Rng r(seed * 2777 + w); vector<Session> out; int odd = 0; static Thr T[3]; { Out o; for (int i = 0; i < N; i += 7) run(args[i], o); }
    vector<thread> th; for (int t = 0; t < 3; t++) th.emplace_back([t] { Thr* x = &T[t]; self = x; for (;;) { wait_turn(x); if (x->quit) return; smode = 2; if (x->quantum >= 0) TF_ON; else smode = 0; run(args[x->arg], x->out); TF_OFF; smode = 0; x->done = true; give_back(x); } });
    u64 k = r.next();
    while (since(t0) < secs * 0.25 && odd < 3 && !scheds.empty()) { auto& sc = scheds[k++ % scheds.size()]; const vector<int>& fm = fams[r.below(fams.size())]; Session s; bool begun[3] = {false, false, false}, stuck = false; int waiting = -1; for (auto& x : T) { x.done = false; x.nest = false; }
      auto resume = [&](int t, long q) { T[t].quantum = q; T[t].back = 0; T[t].turn.store(1, memory_order_release); };
      auto wait = [&](int t, double lim) { auto t1 = Clk::now(); long n = 0; while (!T[t].back.load(memory_order_acquire)) { if (++n > 2000) { n = 0; sched_yield(); if (since(t1) > lim) return false; } else __builtin_ia32_pause(); } return true; };
      alarm(30);
      for (auto& [t, how] : sc) { Thr& x = T[t]; if (x.done && begun[t]) continue; long q = how == 's' ? 1 + (long)r.below(r.below(3) ? 420 : 60) : -1;
        if (how == 'n') { if (!begun[t]) continue; x.nestarg = fm[r.below(fm.size())]; x.nest = true; s.push_back({'c', t, x.nestarg, {}}); last_arg = x.nestarg; resume(t, 1); if (!wait(t, 5)) { stuck = true; waiting = t; break; } s.push_back({'r', t, x.nestarg, x.nestout}); if (!same(x.nestout, alone[x.nestarg])) odd += 1; continue; }
        if (!begun[t]) { begun[t] = true; x.arg = fm[r.below(fm.size())]; last_arg = x.arg; s.push_back({'c', t, x.arg, {}}); }
        resume(t, q); if (!wait(t, 0.5)) { stuck = true; waiting = t; break; }
        if (x.done) s.push_back({'r', t, x.arg, x.out}); }
      if (stuck) { st->stuck++; // a thread cannot go on without another: let them all run
        for (int t = 0; t < 3; t++) if (begun[t] && !T[t].done && t != waiting) resume(t, -1);
        for (int t = 0; t < 3; t++) if (begun[t]) { bool had = T[t].done && t != waiting; while (!wait(t, 1)) {} if (t == waiting && !T[t].done) { resume(t, -1); while (!wait(t, 1)) {} } if (!had) s.push_back({'r', t, T[t].arg, T[t].out}); } }
      alarm(0); bool ok = true; for (int t = 0; t < 3; t++) if (begun[t] && T[t].done && !same(T[t].out, alone[T[t].arg])) ok = false; for (auto& x : s) if (x.k == 'r' && !same(x.o, alone[x.a])) ok = false;
      st->sched++; if (!ok) { odd++; st->odd++; } if (!stuck && (!ok || out.size() < 60)) out.push_back(s); else if (!ok) out.push_back(s);
      if (stuck && st->stuck > 20) break; }
    for (auto& x : T) { x.quit = true; x.turn = 1; } for (auto& x : th) x.join();
    write_trace("trace-sched" + to_string(w) + ".ndjson", out); });
  printf("{\"requests\":%d,\"alone\":%llu,\"calls_in_long_sessions\":%llu,\"short_processes\":%llu,\"interrupted_conversions\":%llu,\"interrupting_conversions\":%llu,\"steps\":%llu,\"schedules\":%zu,\"scheduled_sessions\":%llu,\"left_by_exception\":%llu,\"stuck\":%llu,\"deviating\":%llu}\n", N, (unsigned long long)st->alone, (unsigned long long)st->seq, (unsigned long long)st->storm, (unsigned long long)st->nest, (unsigned long long)st->nested, (unsigned long long)st->steps, scheds.size(), (unsigned long long)st->sched, (unsigned long long)st->left, (unsigned long long)st->stuck, (unsigned long long)st->odd);
  return 0; }
