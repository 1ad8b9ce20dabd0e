// Parts of the interface that are not sharded.  -DFORMS, -DHANDLER, -DINSPECT select them.
#include "modes.hpp"
#define EXP extern "C" __attribute__((visibility("default")))
#define SW(fn, ...) switch (m / 2) { case 0: return fn##0(__VA_ARGS__); case 1: return fn##1(__VA_ARGS__); case 2: return fn##2(__VA_ARGS__); case 3: return fn##3(__VA_ARGS__); case 4: return fn##4(__VA_ARGS__); case 5: return fn##5(__VA_ARGS__); default: return fn##6(__VA_ARGS__); }
#ifdef FORMS
#define D(n) void vi_forms_##n(int, uint64_t, int, int, Forms*);
D(0) D(1) D(2) D(3) D(4) D(5) D(6)
EXP void vi_forms(int f, uint64_t b, int m, int t, Forms* o) { SW(vi_forms_, f, b, m, t, o) }
#endif
#ifdef HANDLER
#define D(n) void vi_handler_##n(int, uint64_t, int, int, int, HCalls*);
D(0) D(1) D(2) D(3) D(4) D(5) D(6)
EXP void vi_handler(int f, uint64_t b, int m, int t, int kind, HCalls* o) { SW(vi_handler_, f, b, m, t, kind, o) }
namespace H = jkj::grisu_exact_case_handlers;
// the library's own handlers, called directly (kind 0 default, 1 ignoring) or through a default conversion (2)
template <class F> static void own(F x, int kind) { auto br = jkj::get_bit_representation(x); if (kind == 0) { H::assert_finite h; h(br); } else if (kind == 1) { const H::ignore_special_cases h{}; h(br); }
  else { volatile uint64_t s = jkj::grisu_exact(x).significand; (void)s; } }
EXP void vi_own(int f, uint64_t b, int kind) { if (f == 0) own(of<float>(b), kind); else own(of<double>(b), kind); }
#endif
#ifdef NEST
#define D(n) void vi_nest_##n(int, uint64_t, int, int, void (*)(void*), void*, Res*);
D(0) D(1) D(2) D(3) D(4) D(5) D(6)
EXP void vi_nest(int f, uint64_t b, int m, int t, void (*cb)(void*), void* ctx, Res* o) { SW(vi_nest_, f, b, m, t, cb, ctx, o) }
#endif
#ifdef INSPECT
template <class F> static void insp(uint64_t b, Insp* o) { F x = of<F>(b); const auto br = jkj::get_bit_representation(x); F y = br.as_ieee754(); uint64_t back = 0; memcpy(&back, &y, sizeof y);
  o->f = br.f; o->back = back; o->finite = br.is_finite(); o->nonzero = br.is_nonzero(); o->subnormal = br.is_subnormal(); o->positive = br.is_positive(); o->negative = br.is_negative();
  o->inf = br.is_infinity(); o->pinf = br.is_positive_infinity(); o->ninf = br.is_negative_infinity(); o->nan = br.is_nan(); o->qnan = br.is_quiet_nan(); o->snan = br.is_signaling_nan();
  o->sig = br.extract_significand_bits(); o->exp = br.extract_exponent_bits(); o->paylen = (int)br.nan_payload_length; auto pl = br.get_nan_payload(); o->payload = pl.to_ullong(); o->payn = (int)pl.size(); }
EXP void vi_inspect(int f, uint64_t b, Insp* o) { if (f == 0) insp<float>(b, o); else insp<double>(b, o); }
#endif
