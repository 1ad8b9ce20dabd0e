// Conversions before and after main: the same requests from a constructor that runs before every other initialisation
// of the program, from main, and from a destructor that runs after every other one.
//   early OUTDIR SEED COUNT CORPUS          writes OUTDIR/trace-early.ndjson
// The process that converts is this program again, started with --child FILE; FILE holds requests and then answers.
#include "session.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
extern "C" { char* vi_text(int, uint64_t, int, int, char*, int); void vi_one(int, uint64_t, int, int, Res*); void vi_nest(int, uint64_t, int, int, void (*)(void*), void*, Res*); }
struct Slot { int kind, f, m, p; u64 b; Out o[3]; int done[3]; };
static Slot* slots; static int nslots;          // plain data: nothing else is initialised yet
static void phase(int k) {
  for (int i = 0; i < nslots; i++) { Slot& s = slots[i]; Out& o = s.o[k]; memset(&o, 0, sizeof o);
    if (s.kind == 0 || s.kind == 3) { Res r; memset(&r, 0, sizeof r); if (s.kind == 0) vi_one(s.f, s.b, s.m, s.p, &r); else vi_nest(s.f, s.b, s.m, s.p, nothing, nullptr, &r); pack(r, o); }
    else { char buf[64]; memset(buf, 'Z', sizeof buf); char* e = vi_text(s.f, s.b, s.m, s.p, buf, s.kind == 2); long n = e - buf; if (n < 0 || n > 40) n = 41; else if (s.kind == 2) n++; o.n = (unsigned char)n; memcpy(o.d, buf, n); }
    s.done[k] = 1; } }
__attribute__((constructor(101))) static void before(int argc, char** argv, char**) {
  if (argc != 4 || strcmp(argv[1], "--child")) return;
  nslots = atoi(argv[3]); int fd = open(argv[2], O_RDWR); slots = (Slot*)mmap(0, sizeof(Slot) * nslots, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (slots == MAP_FAILED) _exit(2);
  phase(0); }
__attribute__((destructor(101))) static void after() { if (slots && nslots) phase(2); }
static void put_out(std::string& s, int kind, const Out& o) {
  s += '['; if (kind == 0 || kind == 3) { int e; u64 g; memcpy(&e, o.d + 1, 4); memcpy(&g, o.d + 5, 8); s += std::to_string(o.d[0]) + "," + std::to_string(e); while (g) { s += "," + std::to_string(g & 32767); g >>= 15; } }
  else for (int i = 0; i < o.n && i < 47; i++) { if (i) s += ','; s += std::to_string(o.d[i]); }
  s += ']'; }
int main(int argc, char** argv) {
  if (argc == 4 && !strcmp(argv[1], "--child")) { phase(1); return 0; }
  if (argc != 5) return 2;
  std::string dir = argv[1], file = dir + "/early.bin"; int n = atoi(argv[3]); Gens G; G.load(argv[4]); make_args(strtoull(argv[2], 0, 10) + 9, G, (n + 23) / 24, 24); if (n > (int)args.size()) n = (int)args.size();
  int fd = open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (ftruncate(fd, sizeof(Slot) * n)) return 2;
  Slot* s = (Slot*)mmap(0, sizeof(Slot) * n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (s == MAP_FAILED) return 2;
  for (int i = 0; i < n; i++) { Arg& a = args[i]; s[i].kind = a.kind; s[i].f = a.f; s[i].m = a.m; s[i].p = a.p; s[i].b = a.b; }
  std::vector<Out> alone(n); Out* al = (Out*)mmap(0, sizeof(Out) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); L.one = vi_one; L.text = vi_text; L.nest = vi_nest;
  auto lost = [&](const char* w, int i) { printf("LOST %s %d %llu\n", w, s[i].f, (unsigned long long)s[i].b); return 3; };
  for (int i = 0; i < n; i++) { fflush(stdout); pid_t p = fork(); if (p == 0) { alarm(20); run(args[i], al[i]); _exit(0); } int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) return lost("alone", i); }
  pid_t p = fork(); if (p == 0) { alarm(60); execl("/proc/self/exe", "early", "--child", file.c_str(), std::to_string(n).c_str(), (char*)0); _exit(2); }
  int st; waitpid(p, &st, 0); static const char* when[3] = {"before main", "in main", "after main"};
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { for (int k = 0; k < 3; k++) for (int i = 0; i < n; i++) if (!s[i].done[k]) return lost(when[k], i); return 2; }
  std::string o; for (int i = 0; i < n; i++) { o += "{\"k\":\"alone\",\"a\":" + std::to_string(i) + ",\"q\":[" + std::to_string(s[i].kind) + "," + std::to_string(s[i].f) + "," + std::to_string(s[i].m) + "," + std::to_string(s[i].p) + ",\"" + std::to_string(s[i].b) + "\"],\"r\":"; put_out(o, s[i].kind, al[i]); o += "}\n"; }
  o += "{\"k\":\"begin\"}\n"; int odd = 0;
  for (int k = 0; k < 3; k++) for (int i = 0; i < n; i++) { bool ok = same(s[i].o[k], al[i]); odd += !ok; if (ok && i % 8 && n > 400) continue; o += "{\"k\":\"call\",\"t\":0,\"a\":" + std::to_string(i) + ",\"when\":\"" + when[k] + "\"}\n{\"k\":\"ret\",\"t\":0,\"a\":" + std::to_string(i) + ",\"r\":"; put_out(o, s[i].kind, s[i].o[k]); o += "}\n"; }
  FILE* f = fopen((dir + "/trace-early.ndjson").c_str(), "w"); fputs(o.c_str(), f); fclose(f); unlink(file.c_str());
  printf("{\"requests\":%d,\"phases\":3,\"deviating\":%d}\n", n, odd); return 0; }
