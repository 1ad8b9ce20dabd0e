// Every form of asking for one conversion, for the two modes of this shard.
#include "modes.hpp"
#include "fp_to_chars.h"
#include <utility>
namespace H = jkj::grisu_exact_case_handlers;
template <class F> static void put(Forms* o, jkj::fp_t<F, true> v) { o->r[o->n].sig = v.significand; o->r[o->n].exp = v.exponent; o->r[o->n].neg = v.is_negative; o->sgn[o->n++] = 1; }
template <class F> static void put(Forms* o, jkj::fp_t<F, false> v) { o->r[o->n].sig = v.significand; o->r[o->n].exp = v.exponent; o->r[o->n].neg = 0; o->sgn[o->n++] = 0; }
#define TX(call) { char* b = o->text[o->nt++]; memset(b, 0x33, 64); char* e = call; if (e < b || e > b + 60) e = b; *e = 0; }
template <class F, class Mo, class Po> static void forms(F x, Forms* o, bool dm, bool dp) {
  Mo m; Po p; const Mo cm{}; const Po cp{}; H::assert_finite h; const H::ignore_special_cases ch{}; const F cx = x;
  put<F>(o, jkj::grisu_exact(x, Mo{}, Po{})); put<F>(o, jkj::grisu_exact<true>(x, m, p)); put<F>(o, jkj::grisu_exact<false>(x, Mo{}, Po{}));
  put<F>(o, jkj::grisu_exact<false>(x, m, cp)); put<F>(o, jkj::grisu_exact(cx, cm, cp)); put<F>(o, jkj::grisu_exact<true>(x, std::move(m), std::move(p)));
  put<F>(o, jkj::grisu_exact(x, Mo{}, Po{}, H::assert_finite{})); put<F>(o, jkj::grisu_exact<false>(x, cm, p, h)); put<F>(o, jkj::grisu_exact<true>(x, m, cp, ch));
  put<F>(o, jkj::grisu_exact<false>(x, Mo{}, Po{}, H::ignore_special_cases{}));
  TX(jkj::fp_to_chars_n(x, b, Mo{}, Po{})) TX(jkj::fp_to_chars(x, b, Mo{}, Po{})) TX(jkj::fp_to_chars_n(x, b, m, cp)) TX(jkj::fp_to_chars(cx, b, cm, p)) TX(jkj::fp_to_chars(x, b, std::move(m), std::move(p)))
  if (dp) { put<F>(o, jkj::grisu_exact(x, Mo{})); put<F>(o, jkj::grisu_exact<false>(x, cm)); TX(jkj::fp_to_chars_n(x, b, Mo{})) TX(jkj::fp_to_chars(x, b, m)) }
  if (dm && dp) { put<F>(o, jkj::grisu_exact(x)); put<F>(o, jkj::grisu_exact<false>(x)); put<F>(o, jkj::grisu_exact<true>(cx)); TX(jkj::fp_to_chars_n(x, b)) TX(jkj::fp_to_chars(x, b)) } }
template <class F, class Mo> static void pol(F x, int t, Forms* o, bool dm) {
  switch (t) { case 0: return forms<F, Mo, P::do_not_care>(x, o, dm, false); case 1: return forms<F, Mo, P::tie_to_even>(x, o, dm, true); case 2: return forms<F, Mo, P::tie_to_odd>(x, o, dm, false);
    case 3: return forms<F, Mo, P::tie_to_up>(x, o, dm, false); default: return forms<F, Mo, P::tie_to_down>(x, o, dm, false); } }
void CAT(vi_forms_, SHARD)(int f, uint64_t b, int m, int t, Forms* o) {
  o->n = o->nt = 0;
  if (f == 0) { float x = of<float>(b); if (m & 1) pol<float, M<2*SHARD+1>::t>(x, t, o, false); else pol<float, M<2*SHARD>::t>(x, t, o, m == 0); }
  else { double x = of<double>(b); if (m & 1) pol<double, M<2*SHARD+1>::t>(x, t, o, false); else pol<double, M<2*SHARD>::t>(x, t, o, m == 0); } }
