// A conversion whose special-case handler calls back, for the two modes of this shard.
#include "modes.hpp"
struct back { void (*cb)(void*); void* ctx; template <class F> void operator()(jkj::bit_representation_t<F>) const { cb(ctx); } };
template <class F, class Mo, class Po> static void go(F x, back h, Res* o) { auto v = jkj::grisu_exact<true>(x, Mo{}, Po{}, h); o->sig = v.significand; o->exp = v.exponent; o->neg = v.is_negative ? 1 : 0; }
template <class F, class Mo> static void pol(F x, int t, back h, Res* o) {
  switch (t) { case 0: return go<F, Mo, P::do_not_care>(x, h, o); case 1: return go<F, Mo, P::tie_to_even>(x, h, o); case 2: return go<F, Mo, P::tie_to_odd>(x, h, o);
    case 3: return go<F, Mo, P::tie_to_up>(x, h, o); default: return go<F, Mo, P::tie_to_down>(x, h, o); } }
void CAT(vi_nest_, SHARD)(int f, uint64_t b, int m, int t, void (*cb)(void*), void* ctx, Res* o) {
  back h{cb, ctx};
  if (f == 0) { float x = of<float>(b); if (m & 1) pol<float, M<2*SHARD+1>::t>(x, t, h, o); else pol<float, M<2*SHARD>::t>(x, t, h, o); }
  else { double x = of<double>(b); if (m & 1) pol<double, M<2*SHARD+1>::t>(x, t, h, o); else pol<double, M<2*SHARD>::t>(x, t, h, o); } }
