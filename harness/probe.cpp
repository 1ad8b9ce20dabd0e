// One building block of the library per compilation (-DOP=n), so that one that has been renamed does not hide the others.
#include "grisu_exact.h"
#include <stdint.h>
#define EXP extern "C" __attribute__((visibility("default")))
namespace D = jkj::grisu_exact_detail;
typedef uint64_t u64; typedef uint32_t u32;
// x, y: operands (yh is the high word of a 128-bit y), n: small integer; result in hi, lo
#if OP == 0
EXP void vp_0(u64 x, u64, u64 y, int, u64* hi, u64* lo) { *hi = 0; *lo = D::umul64((u32)x, (u32)y); }
#elif OP == 1
EXP void vp_1(u64 x, u64, u64 y, int, u64* hi, u64* lo) { auto r = D::umul128(x, y); *hi = r.high(); *lo = r.low(); }
#elif OP == 2
EXP void vp_2(u64 x, u64, u64 y, int, u64* hi, u64* lo) { *hi = 0; *lo = D::umul128_upper64(x, y); }
#elif OP == 3
EXP void vp_3(u64 x, u64 yh, u64 y, int, u64* hi, u64* lo) { *hi = 0; *lo = D::umul192_upper64(x, D::uint128(yh, y)); }
#elif OP == 4
EXP void vp_4(u64 x, u64, u64 y, int, u64* hi, u64* lo) { *hi = 0; *lo = D::umul96_upper32((u32)x, y); }
#elif OP == 5
EXP void vp_5(u64 x, u64, u64, int n, u64* hi, u64* lo) { *hi = 0; *lo = D::divisible_by_power_of_2((u32)x, n); }
#elif OP == 6
EXP void vp_6(u64 x, u64, u64, int n, u64* hi, u64* lo) { *hi = 0; *lo = D::divisible_by_power_of_2((u64)x, n); }
#elif OP == 7
EXP void vp_7(u64 x, u64, u64, int n, u64* hi, u64* lo) { *hi = 0; *lo = D::divisible_by_power_of_5((u32)x, (unsigned)n); }
#elif OP == 8
EXP void vp_8(u64 x, u64, u64, int n, u64* hi, u64* lo) { *hi = 0; *lo = D::divisible_by_power_of_5((u64)x, (unsigned)n); }
#elif OP == 9
EXP void vp_9(u64, u64, u64, int n, u64* hi, u64* lo) { *hi = 0; *lo = (u64)(int64_t)D::floor_log10_pow2(n); }
#elif OP == 10
EXP void vp_10(u64, u64, u64, int n, u64* hi, u64* lo) { *hi = 0; *lo = (u64)(int64_t)D::floor_log2_pow10(n); }
#elif OP == 11
EXP void vp_11(u64, u64, u64, int n, u64* hi, u64* lo) { *hi = 0; *lo = (u64)(int64_t)D::floor_log5_pow2(n); }
#elif OP == 20
EXP void vp_20(int k, u64* hi, u64* lo) { *hi = 0; *lo = D::get_cache<float>(k); }
EXP void vp_20r(int* r) { r[0] = D::common_info<float>::min_k; r[1] = D::common_info<float>::max_k; r[2] = (int)(sizeof(D::cache_holder<float>::cache) / sizeof(D::cache_holder<float>::cache[0])); }
#elif OP == 21
EXP void vp_21(int k, u64* hi, u64* lo) { auto c = D::get_cache<double>(k); *hi = c.high(); *lo = c.low(); }
EXP void vp_21r(int* r) { r[0] = D::common_info<double>::min_k; r[1] = D::common_info<double>::max_k; r[2] = (int)(sizeof(D::cache_holder<double>::cache) / sizeof(D::cache_holder<double>::cache[0])); }
#endif
