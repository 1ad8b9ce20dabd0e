#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
H, F, S = "grisu_exact.h", "fp_to_chars.h", "fp_to_chars/fp_to_chars.cpp"
R = ["benchmark/ryu/d2s.c", "benchmark/ryu/f2s.c", "benchmark/ryu/ryu.h"]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})
T = "The stable tests sample 10 million random bit patterns per format, in the default mode only, and compare the text with Ryu; "
prop("C01", "Every conversion round-trips through a correct reader of its mode",
 "For every finite nonzero float and double, under every rounding mode and every correct-rounding policy, a correct reader that rounds by that same mode maps the produced decimal (sign, significand, exponent) back to exactly the input bit pattern. In particular the default conversion and the default text are read back bit for bit by any correctly rounding (nearest, ties to even) parser.",
 ["inputs", "configurations"], "all 2^32 / 2^64 bit patterns that are finite and nonzero x 14 rounding modes x 5 policies",
 T + "13 of the 14 modes, 4 of the 5 policies and all rare inputs (interval endpoints that are short decimals, powers of two, subnormals) are never reached.",
 [H], [("shortest-interval search over kappa", f"{H}: grisu_exact_impl::compute steps 2 and 3"), ("endpoint inclusion", f"{H}: grisu_exact_rounding_modes::interval_type, is_zf_smaller_than_deltaf, is_product_integer")],
 ["return value of jkj::grisu_exact", "text of jkj::fp_to_chars"],
 [("z, delta", "scaled right endpoint and interval length", f"{H}: zi, deltai"), ("kappa", "number of digits removed", f"{H}: divisor, ret_value.exponent")])
prop("C02", "No shorter decimal round-trips",
 "For every finite nonzero float and double, every rounding mode and every policy, no decimal with fewer significant digits than the produced significand lies in the set of reals that a reader in that mode, treating everything past the largest binade as overflow, maps to the input. The significand is nonzero and never ends in the digit zero.",
 ["inputs", "configurations"], "all finite nonzero bit patterns x 14 rounding modes x 5 policies",
 T + "whether a shorter candidate exists at an endpoint depends on exact equalities that random inputs hit with probability about 2^-50.",
 [H], [("increasing/decreasing search for the largest kappa", f"{H}: increasing_search, decrease_kappa_by_1_label"), ("right endpoint step", f"{H}: boundary_adjustment_label")],
 ["significand and exponent of jkj::grisu_exact"])
prop("C03", "Nearest modes: the closest of the shortest candidates is chosen",
 "For every finite nonzero float and double, every to-nearest rounding mode and every policy except the one that waives correct rounding, no other decimal of the same (minimal) number of significant digits that also reads back to the input is strictly closer to the exact binary value than the produced one.",
 ["inputs", "configurations"], "all finite nonzero bit patterns x 10 nearest modes x 4 policies",
 T + "correct rounding is a strict inequality between exact rationals with hundreds of bits, and goes wrong only where the value is very close to the midpoint of two candidates or where a power of two makes the interval lopsided.",
 [H], [("correct rounding search", f"{H}: correct_rounding_search_label"), ("separate search when no digit is removed (binary32)", f"{H}: correct_rounding_search_when_kappa_is_0_label"), ("undoing a step past a short left interval", f"{H}: exponent == 59 / exponent == -203")],
 ["significand and exponent of jkj::grisu_exact"], [("epsilon", "scaled distance from the right endpoint to the value", f"{H}: epsiloni"), ("steps", "candidates to step down", f"{H}: steps")])
prop("C04", "Exact ties between candidates follow the requested tie policy",
 "Whenever two shortest candidates that both read back to the input are exactly equidistant from the exact value, the default and the even policy return the even significand, the odd policy the odd one, the up policy the one larger in magnitude and the down policy the one smaller in magnitude. Where no tie exists all four of these policies return the same decimal.",
 ["inputs", "configurations"], "all finite nonzero bit patterns x 10 nearest modes x {even, odd, up, down}",
 "No test ever passes a tie policy; exact ties exist only for exponents in a narrow band and need significands divisible by high powers of two or five.",
 [H], [("tie detection by exact divisibility", f"{H}: is_product_integer<other>, is_product_integer<two_times_fc>"), ("even/odd/up/down selection", f"{H}: CorrectRoundingSearch::tag branches")],
 ["significand and exponent of jkj::grisu_exact"])
prop("C05", "Directed modes never cross the value and get as close as possible",
 "With a directed rounding mode (toward plus infinity, minus infinity, zero, or away from zero) a correct reader rounding in that direction recovers the input, so the decimal lies on the far side of (or on) the exact value and within one representable step of it. Unless correct rounding is waived, it is the shortest-length decimal closest to the exact value on that side, and equals the exact value whenever a decimal of that length does.",
 ["inputs", "configurations"], "all finite nonzero bit patterns of both signs x 4 directed modes x 5 policies",
 "No test uses a directed mode; the largest finite value, powers of two and the smallest subnormal each take a special path.",
 [H], [("directed interval endpoints and overflow of the right endpoint", f"{H}: fr == 0 branch, compute_delta"), ("left-closed minimum search", f"{H}: correct_rounding_search_label, left_closed_directed"), ("sign-dependent dispatch", f"{H}: toward_plus_infinity, toward_minus_infinity")],
 ["significand and exponent of jkj::grisu_exact"])
prop("C06", "Waiving correct rounding only changes which shortest candidate is returned",
 "With the policy that performs no correct rounding search, for every mode and every finite nonzero input, the result still reads back to the input and has the same number of significant digits as the correctly rounded result of that mode. When only one shortest candidate exists, the two results are identical.",
 ["inputs", "configurations"], "all finite nonzero bit patterns x 14 modes",
 "The policy is used by one benchmark and one verifier for powers of two, never judged.",
 [H], [("right-end decrement when the endpoint is excluded", f"{H}: boundary_adjustment_label, do_not_care_tag")],
 ["significand and exponent of jkj::grisu_exact"])
prop("C07", "Sign symmetry",
 "The reported sign is the input's sign bit, in numbers and in text. The significand and exponent of a negated input equal those of the input under the mirrored rounding mode (toward-plus-infinity exchanged with toward-minus-infinity, all others unchanged), for every policy.",
 ["inputs", "configurations"], "all finite nonzero bit patterns x 14 modes x 5 policies, paired with their negation",
 "Tests never pair x with -x, and sign matters to endpoint inclusion only in modes no test uses.",
 [H, F], [("sign extraction", f"{H}: bit_representation_t::is_negative"), ("sign-dependent interval", f"{H}: nearest_toward_plus_infinity, nearest_toward_minus_infinity")],
 ["is_negative, significand, exponent of jkj::grisu_exact", "leading character of the text"])
prop("C08", "Static-boundary modes are interchangeable with their dynamic originals",
 "Each of the four rounding modes that are documented as the same mode with separately generated code (nearest-even, nearest-odd, nearest toward plus infinity, nearest toward minus infinity) returns exactly the same significand, exponent and sign as its plain counterpart for every finite nonzero input of either sign and every correct-rounding policy that searches, and the same digit count when correct rounding is waived.",
 ["inputs", "configurations"], "all finite nonzero bit patterns x 4 mode pairs x 5 policies",
 "No test instantiates a static-boundary mode.",
 [H], [("dispatch on parity or sign", f"{H}: nearest_*_static_boundary::delegate, detail::nearest_always_closed/open")],
 ["return value of jkj::grisu_exact"])
prop("C09", "Finite nonzero text is the canonical rendering of the numeric result",
 "For every finite nonzero input, mode and policy the text is an optional minus sign, the decimal significand's digits with a point after the first one iff there are several, the letter E, and the exponent of the leading digit in minimal decimal form with a minus sign iff negative. Its digits and exponent are exactly those of the numeric conversion under the same mode and policy.",
 ["inputs", "configurations"], "all finite nonzero bit patterns (all digit counts 1..9 / 1..17 x all exponents) x modes x policies",
 T + "nearly all random values have 8-9 / 16-17 digits, so short digit strings, and small or one-, two-, three-digit exponents, are barely exercised, and non-default modes never.",
 [F, S], [("digit emission in blocks of 8, 4, 2", f"{S}: fp_to_chars_impl"), ("digit count", f"{S}: decimal_length"), ("exponent emission", f"{S}: fp_to_chars_impl"), ("mode forwarding", f"{F}: fp_to_chars_n")],
 ["bytes written by jkj::fp_to_chars_n"], [("buffer cursor", "next byte to write", f"{S}: buffer")])
prop("C10", "Zeros, infinities and NaNs have fixed spellings",
 "Positive and negative zero print as 0E0 and -0E0, the infinities as Infinity and -Infinity, and every NaN bit pattern (any payload, quiet or signaling, either sign) as NaN without a sign, in every rounding mode and policy. No finite value prints as any of these.",
 ["inputs", "configurations"], "all zero, infinite and NaN bit patterns of both formats (2^24 - 2 float NaNs, 2^53 - 2 double NaNs) x modes",
 "Random doubles hit a NaN about once in 1000, but infinities, zeros and single-bit payloads practically never.",
 [F], [("classification before conversion", f"{F}: fp_to_chars_n"), ("payload test by shift", f"{F}: br.f << (exponent_bits + 1)")],
 ["bytes written by jkj::fp_to_chars_n / jkj::fp_to_chars"])
prop("C11", "The caller's buffer is written exactly where promised",
 "The non-terminating text function writes precisely the bytes from the buffer start up to the returned pointer and no byte outside that range; the terminating one writes the same bytes plus exactly one NUL at the returned pointer. The result never depends on what the buffer held before, and 24 bytes (15 for float) plus the NUL always suffice.",
 ["inputs", "histories"], "all bit patterns (finite or not), any prior buffer contents and alignment",
 "Tests print into a 41-byte buffer and compare C strings, so a stray byte beyond the terminator, a stale byte or an overlong result goes unnoticed.",
 [F, S], [("two-byte block stores relative to the digit count", f"{S}: memcpy(buffer + olength - i - 1, ...)"), ("terminator", f"{F}: fp_to_chars")],
 ["full contents of a guarded buffer before and after the call, and the returned pointer"])
prop("C12", "Results do not depend on platform, compiler or code path",
 "For every input, mode and policy the numeric result and the text are identical whichever implementation of wide multiplication and bit scanning is selected (native 128-bit arithmetic, compiler intrinsics, or portable 32-bit arithmetic), on 32-bit and 64-bit targets, with any supported compiler, optimisation level and assertion setting.",
 ["configurations", "inputs"], "all bit patterns x {x86-64, i686} x {native, MSVC-intrinsic, portable} x {gcc, clang} x {-O0..-O3} x {NDEBUG on, off}",
 "Each target's tests compare with Ryu on other random inputs; carries in the portable multiplication and the non-x64 divisibility tests are sampled only, and the MSVC branches are never compiled.",
 [H, S], [("umul128, umul128_upper64, umul192_upper64, umul96_upper32", f"{H}: three preprocessor branches each"), ("divisible_by_power_of_2", f"{H}: three branches"), ("clang-specific remainder", f"{S}: __clang__")],
 ["return values and text of several builds on the same inputs"])
prop("C13", "Conversions are pure and reentrant",
 "The result of a conversion depends only on its arguments: any sequence or concurrent interleaving of conversions, in any mix of formats, modes and policies, on any threads, under any floating-point environment, yields for each call the result it would yield alone, including a conversion started by a signal handler or by a special-case handler while another conversion is in progress on the same thread. Concurrent conversions never race on memory.",
 ["schedules", "histories"], "all interleavings and call histories of numeric and text conversions from several threads, interrupted at any instruction",
 "All tests are single-threaded and compare each call in isolation.",
 [H, F, S], [("no mutable static state", f"{H}, {S}: tables are constexpr")],
 ["results of calls issued by concurrent threads in random orders"])
prop("C14", "Bit-pattern inspection classifies every pattern correctly",
 "For every bit pattern of either format the inspection object exposes the pattern itself, converts back to a value with that pattern, and answers finite, nonzero, positive, negative, infinity (either, positive, negative), NaN, quiet NaN and signaling NaN as IEEE-754 defines them, and subnormal for exactly the patterns whose exponent field is zero (the zeros included); the extracted significand and exponent fields and the NaN payload are the pattern's fields. Each pattern is exactly one of finite, infinite and NaN, and each NaN exactly one of quiet and signaling.",
 ["inputs"], "all 2^32 and 2^64 bit patterns",
 "No test calls these inspection functions at all (only three of them are reached through the text function).",
 [H], [("bit tests", f"{H}: bit_representation_t")],
 ["methods of the object returned by jkj::get_bit_representation"])
prop("C15", "Every conversion terminates without undefined behaviour or failed assertions",
 "For every finite nonzero float and double, in every rounding mode and policy, numeric and text conversion returns, no internal assertion fails, and no operation with undefined behaviour (signed overflow, oversized shift, out-of-range table access, out-of-bounds write) is executed.",
 ["inputs", "configurations"], "all finite nonzero bit patterns x 14 modes x 5 policies",
 "The tests run without sanitizers, in the default mode only; the extreme exponents and single-path modes are where table indices and shifts can leave their range.",
 [H, S], [("range of cached powers", f"{H}: get_cache, min_k, max_k"), ("shift amounts", f"{H}: minus_beta, compute_delta"), ("binary search bounds", f"{H}: increasing_search")],
 ["sanitized and assertion-enabled builds on the same inputs"])
prop("C16", "Output sizes are bounded",
 "The significand of a float conversion has at most 9 digits and that of a double at most 17, in every mode and policy; the decimal exponent of the leading digit stays within -45..38 for float and -324..308 for double. Consequently text never exceeds 15 characters for float and 24 for double.",
 ["inputs", "configurations"], "all finite nonzero bit patterns x 14 modes x 5 policies",
 "The digit-count routine has an undefined result past its precondition; only random default-mode values exercise it.",
 [H, S], [("preconditions of the digit counter", f"{S}: decimal_length"), ("kappa lower bound", f"{H}: min_kappa, initial_kappa")],
 ["significand, exponent and text length"])
prop("C17", "Distinct values give distinct, order-preserving decimals",
 "Within one mode and policy, if x < y are finite nonzero values of the same format then the decimal produced for x is strictly less than the decimal produced for y; in particular no two values share a decimal or a text.",
 ["inputs"], "all pairs, equivalently all pairs of adjacent finite values, x 14 modes x 5 policies",
 "Tests never relate two results; adjacency across powers of two and across zero is not sampled.",
 [H, F], [("tiling of the reals by the modes' intervals", f"{H}: grisu_exact_rounding_modes")],
 ["results for adjacent bit patterns"])
prop("C18", "Short decimals survive",
 "Any decimal of at most 6 significant digits within float's normal range, or at most 15 within double's, when read to the nearest value (ties to even) and converted by default, comes back as that same decimal with trailing zeros removed. In particular every integer up to 10^6 (10^15) and every fraction with that few digits prints as itself.",
 ["inputs"], "all decimals of up to 6 / 15 digits and every exponent of the normal range",
 "Random bit patterns practically never are short decimals; the tests never start from a decimal.",
 [H], [("increasing search through large kappa", f"{H}: increasing_search"), ("cached powers for every k", f"{H}: cache_holder")],
 ["jkj::grisu_exact and jkj::fp_to_chars on values read from short decimals"])
prop("C19", "The non-finite policy sees every input first",
 "The caller's special-case handler is invoked exactly once per numeric conversion, before it, with exactly the input's bit pattern, whatever mode and policy are chosen. The default handler lets every finite input pass and, with assertions enabled, stops every infinite or NaN input; the ignoring handler stops none.",
 ["inputs", "configurations"], "all bit patterns x handlers x modes",
 "No test passes a handler or a non-finite value to the numeric interface.",
 [H], [("handler call", f"{H}: grisu_exact"), ("default handler", f"{H}: grisu_exact_case_handlers")],
 ["calls observed by a recording handler; process outcome of the default handler on non-finite input"])
prop("C20", "Library and vendored Ryu reference agree byte for byte",
 "For every bit pattern of either format the default text of the library and the text of the vendored Ryu reference implementation are the same bytes, and both are the canonical shortest, closest, tie-to-even rendering.",
 ["inputs"], "all 2^32 and 2^64 bit patterns",
 "This is what the random tests sample; they cover 0.2% of floats and a 10^-12 fraction of doubles, and take Ryu on trust.",
 [F, S] + R, [("reference conversion", "benchmark/ryu/d2s.c, benchmark/ryu/f2s.c"), ("comparison", "tests/uniform_random_test.cpp")],
 ["f2s_buffered / d2s_buffered and jkj::fp_to_chars"])
prop("C21", "The embedded powers of ten are exact to their precision",
 "For every power of ten the algorithm may ask for, the stored significand (64 bits for float, 128 for double) is that power's leading bits with its first bit set, exact or truncated for nonnegative powers and truncated then incremented for negative ones. No power in the range is missing, and none outside it is needed by any finite input.",
 ["inputs"], "all table entries k in [-30, 46] / [-290, 325] and all exponents",
 "The tests regenerate a table and compare it with a golden file, never with the table in the header; a wrong low bit changes results only for a handful of inputs.",
 [H, "test_results/binary32_generated_cache.txt", "test_results/binary64_generated_cache.txt"], [("tables", f"{H}: cache_holder<float>, cache_holder<double>"), ("index", f"{H}: get_cache")],
 ["table lookups; conversions whose scaled endpoints are extremely close to integers"])
prop("C22", "Arithmetic building blocks are exact on their whole domain",
 "Wide multiplication and its upper-word forms, divisibility by powers of two and of five, and the floor-logarithm estimates return the exact mathematical result for every operand in their documented domain, in each platform-specific variant.",
 ["inputs", "configurations"], "all operand values (64x64, 64x128, 32x64 products; divisibility exponents up to the table size; |e| <= 1650, 642, 65536) x code paths",
 "Only the logarithms are tested directly; multiplication and divisibility are reached through random conversions only, with small exponents of five.",
 [H], [("umul*", f"{H}: umul128, umul128_upper64, umul192_upper64, umul96_upper32"), ("divisibility", f"{H}: divisible_by_power_of_2, divisible_by_power_of_5"), ("logarithms", f"{H}: floor_log10_pow2, floor_log2_pow10, floor_log5_pow2")],
 ["direct calls with generated operands"])
prop("C23", "Every way of asking for the same conversion gives the same answer",
 "Asking with or without the sign member, with explicit or defaulted mode and policy arguments, with temporary, named or constant tag objects, with or without an explicit handler, and through the terminating or non-terminating text function, yields the same significand, exponent, sign and text. The default arguments denote nearest-to-even with tie-to-even.",
 ["configurations", "inputs"], "all call forms x finite nonzero bit patterns x modes x policies",
 "Tests use one call form only.",
 [H, F], [("argument forwarding", f"{H}: grisu_exact; {F}: fp_to_chars, fp_to_chars_n"), ("sign member", f"{H}: fp_t")],
 ["results of all call forms on the same input"])
prop("C24", "The offline programs that produce and justify the table compute what they claim",
 "The big integers used by the offline programs return exact results and lengths for every operation whose result fits; min-max Euclid returns the least and greatest residue and where they are taken; the generated tables equal the exact powers (truncated, or incremented for negative powers); the required-bits tables give, for every exponent, the number of leading bits that suffice for every significand, never more than the table stores; and the verifiers find the logarithm formulas, the interval lengths and the correction bounds valid over the documented ranges, in 64-bit and 32-bit builds.",
 ["inputs", "configurations"], "all operand values and operation sequences within capacity x all (a, b, n) x all exponents of both formats",
 "The programs are the tests; nothing checks the programs. They run with one set of operands.",
 ["tests/bigint.h", "tests/verify_cache_length.cpp", "tests/generate_cache.cpp", "tests/verify_log_computation.cpp", "tests/verify_delta_computation.cpp", "tests/verify_correct_rounding_bound.cpp", "tests/verify_incorrect_rounding_removal.cpp", "test_results"],
 [("big integers", "tests/bigint.h: bigint_impl"), ("extremes", "tests/verify_cache_length.cpp: minmax_euclid"), ("tables", "tests/generate_cache.cpp: generate_cache_bitset"), ("reports", "test_results/*.csv, *.txt; standard output of the programs")],
 ["direct calls with generated operands", "output files and standard output of the programs"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
