// Conversions with a special-case handler of our own, for the two modes of this shard.
#include "modes.hpp"
struct Stop {};
static thread_local HCalls* sink; static thread_local bool stop;
template <class F> static void note(jkj::bit_representation_t<F> br) { if (sink->n < 8) sink->bits[sink->n] = br.f; sink->n++; }
struct rec { template <class F> void operator()(jkj::bit_representation_t<F> br) const { note(br); if (stop) throw Stop{}; } };
// one that remembers: what it remembers after the call is what counts, so it must have been called itself and not a copy
struct keeps { int n = 0; uint64_t bits[8]; template <class F> void operator()(jkj::bit_representation_t<F> br) { if (n < 8) bits[n] = br.f; n++; if (stop) throw Stop{}; }
  ~keeps() { if (at) { at->n = n; for (int i = 0; i < n && i < 8; i++) at->bits[i] = bits[i]; } } HCalls* at = nullptr; keeps() = default; keeps(const keeps& k) : n(k.n) { for (int i = 0; i < 8; i++) bits[i] = k.bits[i]; } };
template <class F, class Mo, class Po> static void go(F x, int kind) {
  const rec ch{}; keeps h; h.at = sink; if (kind % 4 != 1) h.at = nullptr; Mo m; Po p; volatile uint64_t s;
  switch (kind % 4) { case 0: s = jkj::grisu_exact<true>(x, Mo{}, Po{}, rec{}).significand; break; case 1: s = jkj::grisu_exact<false>(x, m, p, h).significand; break;
    case 2: s = jkj::grisu_exact<true>(x, m, Po{}, ch).significand; break; default: s = jkj::grisu_exact<false>(x, Mo{}, p, ch).significand; } (void)s; }
template <class F, class Mo> static void pol(F x, int t, int kind) {
  switch (t) { case 0: return go<F, Mo, P::do_not_care>(x, kind); case 1: return go<F, Mo, P::tie_to_even>(x, kind); case 2: return go<F, Mo, P::tie_to_odd>(x, kind);
    case 3: return go<F, Mo, P::tie_to_up>(x, kind); default: return go<F, Mo, P::tie_to_down>(x, kind); } }
void CAT(vi_handler_, SHARD)(int f, uint64_t b, int m, int t, int kind, HCalls* o) {
  o->n = 0; o->threw = 0; sink = o; stop = kind >= 4;
  try { if (f == 0) { float x = of<float>(b); if (m & 1) pol<float, M<2*SHARD+1>::t>(x, t, kind); else pol<float, M<2*SHARD>::t>(x, t, kind); }
    else { double x = of<double>(b); if (m & 1) pol<double, M<2*SHARD+1>::t>(x, t, kind); else pol<double, M<2*SHARD>::t>(x, t, kind); } }
  catch (Stop&) { o->threw = 1; } }
