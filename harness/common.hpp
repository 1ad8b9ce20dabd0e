// Crash and hang reporting, worker threads: shared by the drivers.
#pragma once
#include "abi.h"
#include "emit.hpp"
#include <atomic>
#include <chrono>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <mutex>
#include <set>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
typedef uint64_t u64; typedef uint32_t u32;
typedef std::chrono::steady_clock Clk;
struct Cur { std::atomic<u64> n; u64 bits; int fmt; char pad[40]; };
static Cur cur[65]; static thread_local int me_ = 64;
static std::string outdir; static int crashfd = -1; static std::atomic<bool> fin{false};
static void note(const char* what, int fmt, u64 bits) {
  char b[256]; int n = 0; auto s = [&](const char* p) { while (*p) b[n++] = *p++; };
  auto num = [&](u64 v) { char t[24]; int k = 0; do { t[k++] = '0' + v % 10; v /= 10; } while (v); while (k) b[n++] = t[--k]; };
  s("{\"k\":\"crash\",\"what\":\""); s(what); s("\",\"f\":"); num(fmt == 9 ? 0 : fmt); s(",\"b\":["); u64 v = bits; bool first = true;
  while (v) { if (!first) s(","); first = false; num(v & 32767); v >>= 15; } s("]}\n");
  if (write(crashfd, b, n)) {} fsync(crashfd); }
static void onsig(int sg) {
  const char* w = sg == SIGABRT ? "assertion or abort" : sg == SIGILL || sg == SIGTRAP ? "undefined behaviour trap" : sg == SIGSEGV || sg == SIGBUS ? "memory fault" : "signal";
  Cur& c = cur[me_]; note(w, c.fmt, c.bits); _exit(3); }
static inline void enter(int f, u64 b) { Cur& c = cur[me_]; c.fmt = f; c.bits = b; c.n.store(c.n.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed); }
static inline void leave() { cur[me_].fmt = 9; }
static inline u64 signbit_of(int f) { return f ? u64(1) << 63 : u64(1) << 31; }
static void watch_setup() {
  crashfd = open((outdir + "/crash.ndjson").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  for (auto& c : cur) c.fmt = 9;
  for (int s : {SIGSEGV, SIGILL, SIGTRAP, SIGABRT, SIGFPE, SIGBUS}) signal(s, onsig); }
static void watchdog() { u64 last[65] = {0}; int still[65] = {0};
  while (!fin) { std::this_thread::sleep_for(std::chrono::milliseconds(100)); static int k = 0; if (++k % 5) continue;
    for (int i = 0; i < 65; i++) { u64 n = cur[i].n; if (n == last[i] && cur[i].fmt != 9 && n) { if (++still[i] > 80) { note("no return within 40 s", cur[i].fmt, cur[i].bits); _exit(3); } } else still[i] = 0; last[i] = n; } } }
static inline int nthreads() { int n = std::thread::hardware_concurrency(); return n < 1 ? 1 : n > 64 ? 64 : n; }
static void workers(const std::function<void(int)>& fn) { std::vector<std::thread> th; int n = nthreads();
  for (int t = 0; t < n; t++) th.emplace_back([&fn, t] { me_ = t; fn(t); }); for (auto& x : th) x.join(); }
static void* opn(const char* p) { void* h = dlopen(p, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(2); } return h; }
template <class T> static void symb(void* h, const char* n, T& f) { f = (T)dlsym(h, n); if (!f) { fprintf(stderr, "no symbol %s\n", n); exit(2); } }
static void write_chunks(const std::vector<std::string>& ev, int chunks) {
  std::vector<FILE*> fo; for (int i = 0; i < chunks; i++) fo.push_back(fopen((outdir + "/chunk-" + std::to_string(i) + ".ndjson").c_str(), "w"));
  for (size_t i = 0; i < ev.size(); i++) fputs(ev[ev.size() - 1 - i].c_str(), fo[i % chunks]);
  for (auto f : fo) fclose(f); }
// Suspicious inputs, bounded per kind.
struct Sus { std::mutex mu; std::vector<std::pair<int, u64>> v; u64 found = 0; u64 cap = 200;
  void add(int f, u64 b) { std::lock_guard<std::mutex> g(mu); if (found++ < cap) v.push_back({f, b}); } };
