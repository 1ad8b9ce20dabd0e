// Exercises the repository's big integers (tests/bigint.h) and its min-max Euclid, and records what they did.
//   bigrun OUTDIR SEED CHUNKS SEQUENCES EUCLIDS
#define NDEBUG
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/time.h>
#include "tests/verify_cache_length.cpp"
#include "emit.hpp"
using namespace jkj::grisu_exact_detail; using std::string; typedef uint64_t u64; typedef unsigned __int128 u128;
static string outdir; static char now[400];
// some operations are known to divide by zero or to run forever
static sigjmp_buf back; static volatile sig_atomic_t inside;
static void onsig(int) { if (inside) siglongjmp(back, 1); int fd = open((outdir + "/crash.ndjson").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); char b[600]; int n = snprintf(b, sizeof b, "{\"k\":\"crash\",\"what\":\"%s\",\"f\":0,\"b\":[]}\n", now); if (write(fd, b, n)) {} _exit(3); }
template <class F> static bool guarded(F f) { static const itimerval on = {{0, 0}, {0, 300000}}, off = {}; bool ok = false; if (!sigsetjmp(back, 1)) { inside = 1; setitimer(ITIMER_VIRTUAL, &on, 0); f(); ok = true; } inside = 0; setitimer(ITIMER_VIRTUAL, &off, 0); return ok; }
struct Rng { u64 s; u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } u64 below(u64 n) { return next() % n; } };
static u64 word(Rng& r) { switch (r.below(7)) { case 0: return r.next(); case 1: return r.next() >> r.below(64); case 2: return ~(r.next() >> r.below(64)); case 3: return ~u64(0); case 4: return u64(1) << r.below(64); case 5: return (u64(1) << r.below(64)) - 1; default: return r.below(12); } }
static void put_words(string& o, const u64* w, size_t n) { // base 2^15, least first
  o += '['; size_t bits = 0; for (size_t i = n; i-- > 0;) if (w[i]) { bits = 64 * i + (64 - __builtin_clzll(w[i])); break; }
  for (size_t p = 0; p < bits; p += 15) { size_t i = p / 64, s = p % 64; u64 v = w[i] >> s; if (s > 49 && i + 1 < n) v |= w[i + 1] << (64 - s); if (p) o += ','; o += std::to_string(v & 32767); } o += ']'; }
template <class B> static size_t claimed(const B& x) { size_t p = x.leading_one_pos.element_pos, b = x.leading_one_pos.bit_pos; return p * 64 + b + (p && !b ? 1000000 : 0); }
template <class B> static size_t words(const B& x) { return x.leading_one_pos.element_pos < B::array_size ? x.leading_one_pos.element_pos + 1 : B::array_size; }
template <class B> static size_t bitlen(const B& x) { for (size_t i = words(x); i-- > 0;) if (x.elements[i]) return 64 * i + (64 - __builtin_clzll(x.elements[i])); return 0; }
template <class B> static int order(const B& a, const B& b) { size_t n = std::max(words(a), words(b)); for (size_t i = n; i-- > 0;) { u64 x = i < words(a) ? a.elements[i] : 0, y = i < words(b) ? b.elements[i] : 0; if (x != y) return x < y ? -1 : 1; } return 0; }
template <class B> static void val(string& o, const char* k, const B& x) { o += string(",\"") + k + "\":"; put_words(o, x.elements, words(x)); }
template <class B> static bool bad(const B& x) { return claimed(x) != bitlen(x); }
template <size_t N> static void sequence(Rng& r, string& o) {
  typedef bigint_impl<N> B; const size_t cap = 64 * N; B reg[4] = {B(0), B(0), B(0), B(0)};
  o += "{\"k\":\"begin\",\"cap\":" + std::to_string(cap) + "}\n"; bool lost = false;
  auto fill = [&](int d) { if (r.below(3)) { u64 n = word(r); reg[d] = B(n); o += "{\"k\":\"op\",\"op\":\"load\",\"d\":" + std::to_string(d) + ",\"n\":"; put_words(o, &n, 1); }
    else { size_t e = r.below(cap); reg[d] = B::power_of_2(e); o += "{\"k\":\"op\",\"op\":\"pow2\",\"d\":" + std::to_string(d) + ",\"n\":" + std::to_string(e); } };
  auto end = [&](int d) { val(o, "v", reg[d]); o += ",\"l\":" + std::to_string(claimed(reg[d])) + "}\n"; lost |= bad(reg[d]); };
  for (int i = 0; i < 4; i++) { fill(i); end(i); }
  for (int step = 0; step < 30 && !lost; step++) { int d = r.below(4), s = r.below(4), t = (d + 1 + r.below(3)) % 4; B& x = reg[d]; size_t bx = bitlen(x), by = bitlen(reg[s]); u64 n = word(r);
    auto head = [&](const char* op) { snprintf(now, sizeof now, "big integer of %zu bits, operation %s", cap, op); o += string("{\"k\":\"op\",\"op\":\"") + op + "\",\"d\":" + std::to_string(d) + ",\"s\":" + std::to_string(s); };
    auto arg = [&] { o += ",\"n\":"; put_words(o, &n, 1); };
    switch (r.below(14)) {
    case 0: fill(d); end(d); break;
    case 1: if (!bx || bx + 3 > cap) continue; head("mul5"); x.multiply_5(); end(d); break;
    case 2: case 3: if (std::max(bx, by) + 1 > cap) continue; head("add"); x += reg[s]; end(d); break;
    case 4: if (std::max(bx, size_t(64)) + 1 > cap) continue; head("adde"); arg(); x += n; end(d); break;
    case 5: case 6: if (order(reg[s], x) > 0) continue; head("sub"); x -= reg[s]; end(d); break;
    case 7: if (!bx) continue; head("dec"); --x; end(d); break;
    case 8: case 9: if (bx + by > cap) continue; head("mul"); { B z = x * reg[s]; x = z; } end(d); break;
    case 10: if (bx + 64 > cap) continue; head("mule"); arg(); x *= n; end(d); break;
    case 11: if (!by) continue; { head("div"); B q(0), was = x; bool ok = guarded([&] { q = x.long_division(reg[s]); }); if (!ok) { q = B(0); x = was; lost = true; } o += string(",\"died\":") + (ok ? "0" : "1");  o += ",\"t\":" + std::to_string(t); val(o, "q", q); o += ",\"ql\":" + std::to_string(claimed(q)); end(d); lost |= bad(q); reg[t] = q; } break;
    case 12: if (!bx || order(x, reg[s]) > 0 || by + 1 > cap) continue; { head("until"); size_t k = x.multiply_2_until(reg[s]); o += ",\"r\":" + std::to_string(k); end(d); } break;
    default: { const B& c = x; const B& y = reg[s]; bool v[6]; if (r.below(3)) { head("cmp"); bool w[6] = {c < y, c <= y, c > y, c >= y, c == y, c != y}; memcpy(v, w, 6); } else { if (r.below(3) == 0) n = x.elements[0]; head("cmpe"); arg(); bool w[6] = {c < n, c <= n, c > n, c >= n, c == n, c != n}; memcpy(v, w, 6); }
      o += ",\"r\":["; for (int i = 0; i < 6; i++) o += string(i ? "," : "") + (v[i] ? "1" : "0"); o += ']'; end(d); } } } }
template <size_t N> static void euclid(Rng& r, string& o, int kind) {
  typedef bigint_impl<N> B; B a, b; u64 n;
  if (kind == 0) { a = B(1 + r.below(60)); b = B(1 + r.below(60)); n = 1 + r.below(70); }
  else if (kind == 1) { int k = 1 + r.below(N > 8 ? 300 : 50); b = B(1); for (int i = 0; i < k; i++) b.multiply_5(); a = B::power_of_2(r.below(std::min(size_t(64 * N - 70), bitlen(b) + 80))); n = u64(1) << (1 + r.below(55)); }
  else if (kind == 2) { int k = 1 + r.below(N > 8 ? 300 : 50); a = B(1); for (int i = 0; i < k; i++) a.multiply_5(); b = B::power_of_2(1 + r.below(64 * N - 70)); n = u64(1) << (1 + r.below(55)); }
  else { a = B(word(r) | 1); b = B(word(r) | 1); n = 1 + (word(r) >> 1); }
  snprintf(now, sizeof now, "min-max Euclid of %zu and %zu bits", bitlen(a), bitlen(b));
  minmax_euclid_return<N> q; memset(&q, 0, sizeof q); int died = !guarded([&] { q = minmax_euclid(a, b, n); }); if (died) memset(&q, 0, sizeof q);
  o += "{\"k\":\"minmax\",\"a\":"; put_words(o, a.elements, words(a)); val(o, "b", b); o += ",\"n\":"; put_words(o, &n, 1); val(o, "min", q.min); val(o, "max", q.max);
  o += ",\"argmin\":"; put_words(o, &q.argmin, 1); o += ",\"argmax\":"; put_words(o, &q.argmax, 1); o += ",\"died\":" + std::to_string(died) + "}\n"; }
int main(int argc, char** argv) {
  if (argc < 6) return 2; outdir = argv[1]; u64 seed = strtoull(argv[2], 0, 10); int chunks = atoi(argv[3]); long seqs = atol(argv[4]), eus = atol(argv[5]); Rng r{seed * 1000003};
  for (int s : {SIGSEGV, SIGILL, SIGTRAP, SIGABRT, SIGFPE, SIGBUS, SIGALRM, SIGVTALRM}) signal(s, onsig); alarm(200);
  size_t ev = 0;
  for (int c = 0; c < chunks; c++) { string o; for (long i = 0; i < seqs / chunks; i++) switch (r.below(4)) { case 0: sequence<2>(r, o); break; case 1: sequence<3>(r, o); break; case 2: sequence<5>(r, o); break; default: sequence<19>(r, o); }
    for (long i = 0; i < eus / chunks; i++) { int k = r.below(4); if (r.below(4)) euclid<4>(r, o, k); else euclid<16>(r, o, k); }
    ev += std::count(o.begin(), o.end(), '\n'); FILE* f = fopen((outdir + "/chunk-" + std::to_string(c) + ".ndjson").c_str(), "w"); if (!f) return 2; fwrite(o.data(), 1, o.size(), f); fclose(f); }
  printf("{\"events\":%zu,\"sequences\":%ld,\"euclids\":%ld}\n", ev, seqs, eus); return 0; }
