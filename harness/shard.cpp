// Two rounding modes (2*SHARD, 2*SHARD+1) of the library, through its public interface.
#include "modes.hpp"
#ifdef WITH_TEXT
#include "fp_to_chars.h"
#endif
template <class F, class Mo, class Po> static inline void one(F x, Res* o) {
  auto v = jkj::grisu_exact<true>(x, Mo{}, Po{}); o->sig = v.significand; o->exp = v.exponent; o->neg = v.is_negative ? 1 : 0; }
template <class F, class Mo> static void five(F x, Res* o) {
  one<F, Mo, P::do_not_care>(x, o); one<F, Mo, P::tie_to_even>(x, o + 1); one<F, Mo, P::tie_to_odd>(x, o + 2);
  one<F, Mo, P::tie_to_up>(x, o + 3); one<F, Mo, P::tie_to_down>(x, o + 4); }
template <class F, class Mo> static void pick(F x, int t, Res* o) {
  switch (t) { case 0: return one<F, Mo, P::do_not_care>(x, o); case 1: return one<F, Mo, P::tie_to_even>(x, o);
    case 2: return one<F, Mo, P::tie_to_odd>(x, o); case 3: return one<F, Mo, P::tie_to_up>(x, o); default: return one<F, Mo, P::tie_to_down>(x, o); } }
#ifndef WITH_TEXT
void CAT(vi_row_, SHARD)(int f, uint64_t b, Res* o) {
  if (f == 0) { float x = of<float>(b); five<float, M<2*SHARD>::t>(x, o); five<float, M<2*SHARD+1>::t>(x, o + 5); }
  else { double x = of<double>(b); five<double, M<2*SHARD>::t>(x, o); five<double, M<2*SHARD+1>::t>(x, o + 5); } }
void CAT(vi_one_, SHARD)(int f, uint64_t b, int m, int t, Res* o) {
  if (f == 0) { float x = of<float>(b); if (m & 1) pick<float, M<2*SHARD+1>::t>(x, t, o); else pick<float, M<2*SHARD>::t>(x, t, o); }
  else { double x = of<double>(b); if (m & 1) pick<double, M<2*SHARD+1>::t>(x, t, o); else pick<double, M<2*SHARD>::t>(x, t, o); } }
#else
template <class F, class Mo, class Po> static char* tx(F x, char* b, int z) {
  return z ? jkj::fp_to_chars(x, b, Mo{}, Po{}) : jkj::fp_to_chars_n(x, b, Mo{}, Po{}); }
template <class F, class Mo> static char* txp(F x, int t, char* b, int z) {
  switch (t) { case 0: return tx<F, Mo, P::do_not_care>(x, b, z); case 1: return tx<F, Mo, P::tie_to_even>(x, b, z);
    case 2: return tx<F, Mo, P::tie_to_odd>(x, b, z); case 3: return tx<F, Mo, P::tie_to_up>(x, b, z); default: return tx<F, Mo, P::tie_to_down>(x, b, z); } }
char* CAT(vi_text_, SHARD)(int f, uint64_t b, int m, int t, char* buf, int z) {
  if (f == 0) { float x = of<float>(b); return (m & 1) ? txp<float, M<2*SHARD+1>::t>(x, t, buf, z) : txp<float, M<2*SHARD>::t>(x, t, buf, z); }
  double x = of<double>(b); return (m & 1) ? txp<double, M<2*SHARD+1>::t>(x, t, buf, z) : txp<double, M<2*SHARD>::t>(x, t, buf, z); }
#endif
