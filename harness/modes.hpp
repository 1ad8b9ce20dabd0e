// The two rounding modes of a shard, and values from bit patterns.
#pragma once
#include "grisu_exact.h"
#include "abi.h"
#include <string.h>
namespace R = jkj::grisu_exact_rounding_modes;
namespace P = jkj::grisu_exact_correct_rounding;
template <int> struct M;
template <> struct M<0> { using t = R::nearest_to_even; };
template <> struct M<1> { using t = R::nearest_to_odd; };
template <> struct M<2> { using t = R::nearest_toward_plus_infinity; };
template <> struct M<3> { using t = R::nearest_toward_minus_infinity; };
template <> struct M<4> { using t = R::nearest_toward_zero; };
template <> struct M<5> { using t = R::nearest_away_from_zero; };
template <> struct M<6> { using t = R::nearest_to_even_static_boundary; };
template <> struct M<7> { using t = R::nearest_to_odd_static_boundary; };
template <> struct M<8> { using t = R::nearest_toward_plus_infinity_static_boundary; };
template <> struct M<9> { using t = R::nearest_toward_minus_infinity_static_boundary; };
template <> struct M<10> { using t = R::toward_plus_infinity; };
template <> struct M<11> { using t = R::toward_minus_infinity; };
template <> struct M<12> { using t = R::toward_zero; };
template <> struct M<13> { using t = R::away_from_zero; };
template <class F> static inline F of(uint64_t b) {
  F x; if (sizeof(F) == 4) { uint32_t u = (uint32_t)b; memcpy(&x, &u, 4); } else memcpy(&x, &b, sizeof x); return x; }
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
