// Runs the repository's offline programs; they print what they verified and write their tables to test_results/.
#include <algorithm>
#include "tests/verify_cache_length.cpp"
#ifdef TOOLRUN_CACHE
#include "tests/generate_cache.cpp"
#endif
#include "tests/verify_log_computation.cpp"
#include "tests/verify_delta_computation.cpp"
#include "tests/verify_correct_rounding_bound.cpp"
#include "tests/verify_incorrect_rounding_removal.cpp"
int main() {
#ifdef TOOLRUN_CACHE
  generate_cache();
#endif
  verify_cache_length();
  verify_log_computation();
  verify_delta_computation();
  verify_correct_rounding_bound();
  verify_incorrect_rounding_removal();
  return 0;
}
