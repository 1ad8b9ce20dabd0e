// Threads converting at once, for a build with the race detector.  tsanrun SEED SECONDS CORPUS
#include "session.hpp"
extern "C" { char* vi_text(int, uint64_t, int, int, char*, int); void vi_nest(int, uint64_t, int, int, void (*)(void*), void*, Res*); }
int main(int argc, char** argv) {
  u64 seed = strtoull(argv[1], 0, 10); double secs = atof(argv[2]); Gens G; G.load(argv[3]); make_args(seed + 3, G, 40, 48); L.one = vi_one; L.text = vi_text; L.nest = vi_nest;
  auto t0 = Clk::now(); std::vector<std::thread> th; std::atomic<u64> n{0};
  for (int t = 0; t < 6; t++) th.emplace_back([&, t] { Rng r(seed * 13 + t); u64 c = 0; Out o; while (std::chrono::duration<double>(Clk::now() - t0).count() < secs) { const auto& fm = fams[r.below(fams.size())]; for (int i = 0; i < 50; i++) { run(args[fm[r.below(fm.size())]], o); c++; } } n += c; });
  for (auto& x : th) x.join(); printf("{\"calls\":%llu}\n", (unsigned long long)n.load()); return 0; }
