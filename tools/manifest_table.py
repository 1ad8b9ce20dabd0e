T = 'TLA+ contract checked by TLC on recorded executions (trace validation)'
TECH = {
    '*': T,
    'C01': T + ': an independent reader, model-checked against the rounding intervals',
    'C02': T + ': exact search for a shorter decimal in the interval',
    'C03': T + '; algorithm state machine model-checked on small formats and followed on real inputs',
    'C04': T + ': exact tie analysis of the closest candidates',
    'C05': T + '; algorithm state machine model-checked on a small format',
    'C06': T + '; algorithm state machine model-checked on a small format',
    'C07': T + ': mirrored rows of 70 combinations',
    'C08': T + ': rows of static and dynamic modes',
    'C09': T + ': rendering and an independent parser, model-checked as inverse',
    'C10': T + ': spelling by class',
    'C11': T + ': buffer contents before and after, writer machine model-checked',
    'C12': T + ': rows of the same input from many builds',
    'C13': 'TLA+ session specification: schedules generated by TLC replayed into the real library, recorded sessions validated by TLC; race detector reports as events',
    'C14': T + ': decoding of bit patterns, model-checked on small formats',
    'C15': T + ' of sanitised builds: an execution that traps, aborts or hangs is explained by no action',
    'C16': T + ': digits, exponents and text lengths',
    'C17': T + ': rows of consecutive values',
    'C18': T + ': decimals read by the specified reader',
    'C19': T + ': log of handler invocations',
    'C20': T + ': both libraries and the specified text',
    'C21': 'TLA+ definition of the table checked by TLC on every entry of the real one; precision model-checked for all significands',
    'C22': 'TLA+ arithmetic checked by TLC on recorded calls of each building block in each build; shortcuts model-checked for all exponents',
    'C23': T + ': every call form of one conversion',
    'C24': 'TLA+ machine of the big integers and definitions of what each offline program computes, checked by TLC on recorded operations and on everything the programs write; min-max Euclid model-checked step by step',
}
COMMON = ' The specification itself is model-checked on small formats. Trusts TLC, BigInteger (as override of the TLA+ definitions, compared with them), the compilers.'
SAMPLED = 'Every recorded execution is decided with exact arithmetic by TLC. Inputs are sampled: all exponents, computed hard cases, exact multiples and ties, random; a compiled scout looks at some 10^7 more and passes suspicious ones to TLC (thorough: also some 10^9 of the 2·10^9 floats, all combinations, spread evenly over the format). No violation is not a proof for all 2^64 patterns.' + COMMON
LEVEL_NOTE = {
    '*': SAMPLED,
    'C12': 'Every sampled input in 10 (thorough 20) builds: gcc and clang, optimisation levels, NDEBUG, 32-bit, and the other platforms\' branches compiled here with their intrinsics written out. Big-endian targets and the real Microsoft compiler are not covered.' + COMMON,
    'C13': 'Schedules of up to three conversions are enumerated by TLC and replayed with instruction-level switching; long and short sessions with threads, handlers, exceptions, floating-point environments, before and after main. Instruction points within a schedule are sampled; races are found by a happens-before detector in the runs made.' + COMMON,
    'C14': 'All 2^32 float patterns are scanned and sampled doubles recorded; TLC decides the recorded ones.' + COMMON,
    'C15': 'Undefined behaviour, assertions, memory errors and uninitialised reads are observed by instrumented builds on sampled inputs; termination is a time limit of seconds on nanosecond calls.' + COMMON,
    'C21': 'Exhaustive over the real table: every entry is decided by TLC. If the table cannot be addressed (renamed), judged through sampled conversions.' + COMMON,
    'C24': 'Everything the programs write is decided (tables and required bits for every exponent); big-integer operations and min-max Euclid on random sequences of edge-heavy operands. Six defects of tests/bigint.h and minmax_euclid are known findings (test files may not be changed), each described by an exact predicate; any other wrong outcome is a violation. The random number generators of the tests are not specified.' + COMMON,
    'C22': 'Exhaustive for logarithms; operands of products and divisibility are structured and random. A block that cannot be called (renamed) is judged through sampled conversions.' + COMMON,
}
PENDING = 'Check not built yet.'
