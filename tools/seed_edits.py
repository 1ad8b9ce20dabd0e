seed('c01-narrow-remainder', 'C01', 'double whose remainder after cutting eight digits is a multiple of 2^32 plus a few',
     'The remainder of the eight-digit step of the search for a shorter decimal is truncated to 32 bits before it is compared, so about one input in 10^7 is shortened to a decimal far outside its interval.',
     (H, '''if (new_r > deltai) {
					return false;
				}
				else if (new_r == deltai) {''', '''auto const low_r = std::uint32_t(new_r);
				if (low_r > deltai) {
					return false;
				}
				else if (low_r == deltai) {'''))
seed('c02-edge-smallest-normal', 'C02', 'smallest normal number of a format',
     'The smallest normal number is given the short left interval of a power of two.',
     (H, '''fl = (fc == sign_bit_mask && exponent != min_exponent) ?
						sign_bit_mask - edge_case_boundary_bit :''', '''fl = fc == sign_bit_mask ?
						sign_bit_mask - edge_case_boundary_bit :'''),
     (H, '''significand == sign_bit_mask && exponent != min_exponent, cache, minus_beta);''', '''significand == sign_bit_mask, cache, minus_beta);'''))
seed('c03-sixth-step', 'C03', 'double for which the best candidate is six steps away from the first one',
     'The search for the closest candidate stops at five steps for both formats.',
     (H, '''if (divisor32 <= epsiloni) {
											epsiloni -= divisor32;
											steps = 6;
										}''', '''if (2 * divisor32 <= epsiloni) {
											epsiloni -= divisor32;
											steps = 6;
										}'''))
seed('c04-odd-tie', 'C04', 'float whose exact value is half-way between two shortest candidates with no digit to remove, tie-to-odd',
     'Tie-to-odd looks at the parity of twice the value instead of the parity of the candidate.',
     (H, '''(two_yi / 2) % 2 == 0 ?''', '''two_yi % 2 == 0 ?'''))
seed('c05-exact-left', 'C05', 'directed mode, value that is itself a decimal of the shortest length',
     'When the fractional parts agree the left-closed search backs off even if the left endpoint is hit exactly.',
     (H, '''if (!equal_fractional_parts<IntervalTypeProvider::tag>(
										significand, exponent, minus_k))
									{
										--steps;
									}''', '''--steps;'''))
seed('c06-skip-adjustment', 'C06', 'correct rounding waived, smallest kappa, right endpoint an excluded decimal',
     'With the policy that waives correct rounding the adjustment of the right endpoint is skipped when kappa is already the smallest.',
     (H, '''					else
					{
						goto boundary_adjustment_label;
					}

				decrease_kappa_by_1_label:''', '''					else if constexpr (IntervalTypeProvider::tag ==
						grisu_exact_rounding_modes::to_nearest_tag)
					{
						goto return_label;
					}
					else
					{
						goto boundary_adjustment_label;
					}

				decrease_kappa_by_1_label:'''))
seed('c07-even-negative', 'C07', 'negative input with even significand and an endpoint that is a short decimal, nearest toward plus infinity',
     'Nearest-toward-plus-infinity treats negative numbers with even significand like positive ones.',
     (H, '''return{ !br.is_negative() };''', '''return{ br.f % 4 == 0 || !br.is_negative() };'''))
seed('c08-static-swap', 'C08', 'negative input with an endpoint that is a short decimal, static-boundary nearest toward minus infinity',
     'The static-boundary form of nearest-toward-minus-infinity ignores the sign.',
     (H, '''				if (br.is_negative()) {
					return std::forward<CorrectRoundingSearch>(crs).template delegate<return_sign>(
						br, nearest_away_from_zero{});
				}''', '''				if (br.is_negative()) {
					return std::forward<CorrectRoundingSearch>(crs).template delegate<return_sign>(
						br, nearest_toward_zero{});
				}'''))
seed('c09-nine-digits', 'C09', 'double whose shortest decimal is 100000001 times a power of ten',
     'A nine-digit significand of exactly 100000001 is counted as eight digits.',
     (C, '''if (v >= 100000000L) { return 9; }''', '''if (v > 100000001L) { return 9; }'''))
seed('c10-quiet-bit', 'C10', 'NaN whose only payload bit is the quiet bit',
     'The default NaN prints as Infinity.',
     (T, '''common_info<Float>::exponent_bits + 1)) != 0)''', '''common_info<Float>::exponent_bits + 2)) != 0)'''))
seed('c11-nan-nul', 'C11', 'NaN, non-terminating text function',
     'The non-terminating text function writes a NUL behind NaN.',
     (T, '''std::memcpy(buffer, "NaN", 3);''', '''std::memcpy(buffer, "NaN", 4);'''))
seed('c12-clang-remainder', 'C12', 'clang build, four digits 9998 at the end of the significand',
     'The clang-only remainder rounds its quotient.',
     (C, '''output2 - 10000 * (output2 / 10000);''', '''output2 - 10000 * ((output2 + (output2 % 10000 == 9998 ? 2 : 0)) / 10000);'''))
seed('c13-memo', 'C13', 'two threads converting numbers of different binary exponents at the same time',
     'The decimal exponent of the previous conversion is remembered in two static variables that threads share.',
     (H, '''				int const minus_k = floor_log10_pow2(exponent + 1 - alpha);''', '''				static int last_exponent = 0;
				static int last_minus_k = floor_log10_pow2(1 - alpha);
				if (last_exponent != exponent) {
					last_exponent = exponent;
					last_minus_k = floor_log10_pow2(exponent + 1 - alpha);
				}
				int const minus_k = last_minus_k;'''))
seed('c13-first-call', 'C13', 'the first conversion of a process under some mode and policy has binary exponent 0',
     'The remembered decimal exponent starts as if exponent 0 had been seen, with the wrong value.',
     (H, '''				int const minus_k = floor_log10_pow2(exponent + 1 - alpha);''', '''				static thread_local int last_exponent = 0, last_minus_k = 0;
				if (last_exponent != exponent) {
					last_minus_k = floor_log10_pow2(exponent + 1 - alpha);
					last_exponent = exponent;
				}
				int const minus_k = last_minus_k;'''))
seed('c13-scratch', 'C13', 'a text conversion interrupted by another one (thread or signal handler)',
     'Text digits are put together in a static scratch buffer.',
     (C, '''		char* float_to_chars(unsigned_fp_t<float> v, char* buffer) {
			return fp_to_chars_impl(v, buffer);
		}
		char* double_to_chars(unsigned_fp_t<double> v, char* buffer) {
			return fp_to_chars_impl(v, buffer);
		}''', '''		static char scratch[32];

		template <class Float>
		static char* through_scratch(unsigned_fp_t<Float> v, char* buffer) {
			auto const length = fp_to_chars_impl(v, scratch) - scratch;
			memcpy(buffer, scratch, std::size_t(length));
			return buffer + length;
		}
		char* float_to_chars(unsigned_fp_t<float> v, char* buffer) {
			return through_scratch(v, buffer);
		}
		char* double_to_chars(unsigned_fp_t<double> v, char* buffer) {
			return through_scratch(v, buffer);
		}'''))
seed('c14-default-nan', 'C14', 'NaN whose only payload bit is the quiet bit',
     'is_nan ignores the quiet bit.',
     (H, '''return !is_finite() && (extract_significand_bits() != 0);''', '''return !is_finite() && (f << (exponent_bits + 2)) != 0;'''))
seed('c17-left-larger', 'C17', 'toward zero, left endpoint just above a candidate',
     'The left-closed search does not back off when the fraction is known to be larger, and returns a decimal below the input.',
     (H, '''							case zf_vs_deltaf_t::zf_larger:
								--steps;
								break;''', '''							case zf_vs_deltaf_t::zf_larger:
								break;'''))
seed('c19-subnormal-handler', 'C19', 'subnormal input and a caller-supplied special-case handler',
     'The handler is not called for subnormal numbers.',
     (H, '''		case_handler(br);
		return''', '''		if (br.is_subnormal() == !br.is_nonzero()) {
			case_handler(br);
		}
		return'''))
seed('c20-edge-equal', 'C20', 'one power of two per format',
     'The rule for a candidate that sits on the short left endpoint is applied at the wrong binary exponent.',
     (H, '''if (exponent == 59) {''', '''if (exponent == 58) {'''),
     (H, '''if (exponent == -203) {''', '''if (exponent == -204) {'''))
seed('c22-largest-multiple', 'C22', 'largest multiple of a power of five that fits a word',
     'The divisibility test by powers of five rejects the largest multiple.',
     (H, '''return (x * entry.mod_inv) <= entry.max_quotient;''', '''return (x * entry.mod_inv) < entry.max_quotient;'''))
seed('c23-terminating-policy', 'C23', 'terminating text function with a tie policy other than the default, input with an exact tie',
     'The terminating text function forwards the rounding mode but not the tie policy.',
     (T, '''			std::forward<RoundingMode>(rounding_mode),
			std::forward<CorrectRoundingSearch>(crs));
		*ptr''', '''			std::forward<RoundingMode>(rounding_mode));
		*ptr'''))
seed('c21-low-bit', 'C21', 'none for the table itself; a conversion has to come within one unit of 2^-128 of a boundary to show it',
     'One table entry is one too large.',
     (H, "{ 0xa6b34ad8c9dfc06f, 0xf42faa48c0ea481f }", "{ 0xa6b34ad8c9dfc06f, 0xf42faa48c0ea4820 }"))
seed('c12-carry-equal', 'C12', 'target without 128-bit integers; power of two whose table entry has an even upper half',
     'The portable 192-bit product takes an exact low half for a carry.',
     (H, '''return g0.high() + (intermediate < g10);''', '''return g0.high() + (intermediate <= g10);'''))
seed('c12-msvc-carry', 'C12', "Microsoft's compiler on x64; 192-bit product whose lower half carries",
     'The branch for another compiler drops the carry into the upper word.',
     (H, '''_addcarry_u64(carry, g0.high(), 0, &high);''', '''_addcarry_u64(0, g0.high(), 0, &high);'''))
seed('c13-startup-text', 'C13', 'an infinity converted while static objects are initialised, before the table of spellings is',
     'The spelling of infinity is a string object constructed at startup.',
     (T, '''namespace jkj {
	namespace fp_to_chars_detail {
''', '''#include <string>

namespace jkj {
	namespace fp_to_chars_detail {
		inline std::string const infinity_text = std::string("Infi") + "nity";
'''),
     (T, '''std::memcpy(buffer, "Infinity", 8);
				return buffer + 8;''', '''std::memcpy(buffer, fp_to_chars_detail::infinity_text.data(), fp_to_chars_detail::infinity_text.size());
				return buffer + fp_to_chars_detail::infinity_text.size();'''))
seed('c19-reentrancy-guard', 'C19', 'a handler that throws once, then any later conversion on the same thread',
     'A guard against handlers that convert stays set when the handler throws, and later inputs bypass the handler.',
     (H, '''		case_handler(br);
''', '''		// A handler may itself convert; do not run it for its own conversions
		static thread_local bool handling = false;
		if (!handling) {
			handling = true;
			case_handler(br);
			handling = false;
		}
'''))
seed('c18-ten-digits', 'C18', 'double with ten significant digits starting with 10',
     'The number of digits of significands between 1000000000 and 1100000000 is taken for nine.',
     (C, '''if (v >= 1000000000L) { return 10; }''', '''if (v >= 1100000000L) { return 10; }'''))
seed('c16-quarter-interval', 'C16', 'power of two in an upward directed mode, large double',
     'The interval of a power of two in the right-closed modes is halved twice, so some of them get 18 digits.',
     (H, '''intermediate_precision - (q_mp_m1 - 1) + minus_beta''', '''intermediate_precision - (q_mp_m1 - 2) + minus_beta'''))
seed('c15-wide-load', 'C15', 'double whose decimal exponent ends in 99 (or is 98 or 99)',
     'Two characters of the digit table are fetched with a four-byte load, which reads past its end for the last pair.',
     (C, """				else if (exp >= 10) {
					memcpy(buffer, radix_100_table + 2 * exp, 2);
					buffer += 2;
				}
				else {
					*buffer = (char)('0' + exp);
					++buffer;
				}
			}
			else {""", """				else if (exp >= 10) {
					uint32_t pair;
					memcpy(&pair, radix_100_table + 2 * exp, 4);
					memcpy(buffer, &pair, 2);
					buffer += 2;
				}
				else {
					*buffer = (char)('0' + exp);
					++buffer;
				}
			}
			else {"""))
seed('c19-handler-by-value', 'C19', 'an lvalue handler that keeps a state of its own',
     'The handler is taken by value: a copy is called, and what it remembers is lost to the caller.',
     (H, '''		CaseHandler&& case_handler = {})''', '''		CaseHandler case_handler = {})'''))
