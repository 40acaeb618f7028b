RMD = "explicit-state enumeration of literals over bounded alphabets and constructed boundary values, every literal run on the code and on an exact reference model"
prop("E01", "Decimal literals are converted with correct rounding",
 "from_str, parse, TryFrom<&str> and from_str_radix(.., 10) return, for every valid decimal literal whatever its number of digits and its exponent, the binary256 value nearest to the exact decimal value, ties to even. Values beyond the range give a signed infinity, values below half the smallest subnormal a signed zero.",
 "every decimal literal; explored: every exponent of the fast algorithms x significands, a grid over the full exponent range, the significands whose products come closest to a rounding boundary for every |k| <= 1200, exact midpoints with their decimal neighbours (up to 184000 digits), all layouts of digits, radix point and zeros up to 110 digits",
 "Three algorithms are chained by error bounds; a wrong one shows only for literals within 2^-256 of a midpoint, which sampled literals never are.",
 ["src/conv/from_str/mod.rs", "src/conv/from_str/float_repr.rs", "src/conv/from_str/fast_exact.rs", "src/conv/from_str/fast_approx.rs", "src/conv/from_str/slow_exact.rs", "src/conv/big_decimal.rs"],
 [("fast path error bound", "fast_approx.rs"), ("decimal shifting", "big_decimal.rs"), ("digit bookkeeping", "float_repr.rs")],
 "Exhaustive over the stated families of literals; at extreme exponents (0.5 s per literal in the code) a grid.", technique=RMD)
prop("E02", "Literals are accepted and rejected exactly as by f64",
 "from_str accepts exactly the literals f64::from_str accepts - sign, digits with an optional radix point, optional exponent, inf, infinity and nan in any case - and returns the same kind of error otherwise. It never panics; -0 keeps its sign; TryFrom<&str> and from_str_radix agree with it, and from_str_radix rejects every radix but 10.",
 "every string; explored: all strings up to length 6 over [07.+-eEn], all capitalisations and single edits of the words, every character U+0000..U+00FF inserted or substituted at every position of long literals, exponents around the bounds of every integer type",
 "The parser reads eight bytes at a time with bit tricks and keeps positions; malformed input at a particular offset is needed to see a mistake.",
 ["src/conv/from_str/mod.rs", "src/conv/from_str/common.rs", "src/conv/from_str/float_repr.rs", "src/num_traits.rs"],
 [("SWAR digit tests", "common.rs"), ("literal grammar", "float_repr.rs")],
 "Exhaustive over the stated string families.", technique=RMD)
FMD = "explicit-state enumeration of value x format-specification states over bounded alphabets, every state rendered by the code and by an exact reference model"
prop("F01", "Without a precision the shortest decimal that identifies the value is printed",
 "Display and LowerExp/UpperExp without a precision print, for every finite value, the shortest decimal significand that lies within the rounding interval of the value - of several shortest ones the closest to the value - in plain layout (Display) or with one digit before the point (scientific), with the sign of the value (-0 included).",
 "every finite value; explored: every one of the 524287 exponents x 12 significands, all significand patterns around exponents 0, 1 and the maximum, the values d*10^k of few-digit decimals for every k, decimals with 70 to 73 digits, small integers x powers of two, subnormals",
 "The digits come from table-driven interval arithmetic; a bound off by one shows only for values whose interval ends on a short decimal.",
 ["src/conv/to_str/dec_repr.rs", "src/conv/to_str/mod.rs", "src/conv/to_str/common.rs"],
 [("interval bounds", "dec_repr.rs"), ("removal of digits", "dec_repr.rs"), ("layout", "dec_repr.rs")],
 "Exhaustive over the stated families.", technique=FMD)
prop("F02", "With a precision the exact value is printed rounded to that many digits",
 "{:.p}, {:.pe} and {:.pE} print, for every finite value and every precision up to 75, the exact value of the number rounded half to even to p digits after the point; all digits of large integers are exact.",
 "every finite value and precision 0..=75; explored: exponents over the whole range, every precision x exponents around 0, 1 and the maximum, all ties and their neighbours, carries through all digits, few-digit decimals and their neighbours over the whole range of decimal exponents",
 "Digits come in chunks from truncated tables; values within 2^-67 of a chunk boundary, ties and carries are what samples do not hit.",
 ["src/conv/to_str/to_fixed_prec.rs", "src/conv/to_str/mod.rs", "src/conv/to_str/common.rs", "src/big_uint/mod.rs"],
 [("chunk tables and their error", "to_fixed_prec.rs"), ("tie criteria", "to_fixed_prec.rs"), ("decimal exponent estimate", "common.rs")],
 "Exhaustive over the stated families; far from exponent 0 a grid.", technique=FMD)
prop("F03", "Format flags work as for f64",
 "For every combination of sign flag, zero flag, fill character, alignment, width and precision the layout is that of f64: of numbers that f64 represents exactly, with a given precision, the text is identical; zeros, infinities and NaNs included. NaN has no sign. A precision above 75 panics for finite non-zero values, as documented, and never yields wrong digits.",
 "every format specification; explored: 39 flag combinations x 44 widths x 7 precisions x 36 values x 3 notations against the reference model, and all flags and widths x values of f64 against the text f64 itself gives",
 "Flags interact (sign-aware zero padding, centre alignment, non-finite values); the combinations are too many for hand-written tests.",
 ["src/conv/to_str/mod.rs", "src/conv/to_str/formatted.rs", "src/conv/to_str/dec_repr.rs"],
 [("padding", "formatted.rs"), ("special values", "mod.rs")],
 "Exhaustive over the stated product.", technique=FMD)
prop("F04", "Printing and parsing gives the value back",
 "For every value x, format!(\"{x}\"), {:e} and {:E} (without precision) parse to x again, bit for bit; NaN to a NaN.",
 "every value; explored: every exponent in -1500..=1500 x 110 significands in plain and scientific notation, a grid over the whole exponent range, zeros, infinities, NaNs, largest and smallest values",
 "Both directions are approximate algorithms with error bounds; the composition is what users rely on.",
 ["src/conv/to_str/dec_repr.rs", "src/conv/from_str/mod.rs", "src/conv/from_str/fast_approx.rs", "src/conv/from_str/slow_exact.rs"],
 [("shortest digits and decimal conversion agree", "dec_repr.rs / from_str")],
 "Exhaustive over the stated families; beyond |10^512| a grid (0.2 s per literal in the code).", technique=FMD)
prop("F05", "The debug format shows the exact value",
 "{:?} prints for every finite value a triple of sign, exponent and integral significand, (s, e, (0x<high>, 0x<low>)), with (-1)^s * significand * 2^e exactly equal to the value, -0 included; infinities and NaN print as quoted words.",
 "every value; explored: every fifth exponent of the whole range (thorough: every one) x 13 significands, all significand patterns at the boundary exponents, specials",
 "A wrong exponent for subnormals or a lost hidden bit shows for few encodings; the tests print a handful of values.",
 ["src/conv/to_str/mod.rs", "src/lib.rs", "src/big_uint/mod.rs"], [("decomposition", "lib.rs split_f256_enc"), ("debug output", "to_str/mod.rs")],
 "Exhaustive over the stated families.", technique="explicit-state enumeration of values; the printed triple is evaluated exactly and compared with the value")
prop("F06", "Formatting reports a failing writer at once",
 "If the writer behind a format call (Display, LowerExp, UpperExp with any flags) refuses any one of the calls made to it, the format call returns that error, writes nothing afterwards, and what was written before is a prefix of the complete text; without a refusal it returns Ok with the complete text.",
 "every value, format specification and fault position; explored: 100 values x 30 flag combinations x 10 widths x 6 precisions x 3 notations x every single call to the writer refused",
 "Errors of writers never occur in tests that format into strings; the faults are all positions of every output.",
 ["src/conv/to_str/mod.rs", "src/conv/to_str/formatted.rs", "src/conv/to_str/dec_repr.rs"], [("error propagation", "formatted.rs pad_parts, write")],
 "Exhaustive: every fault position of every explored format call.", technique="fault injection: exhaustive exploration of all single-fault positions (refused writer calls) of every explored format call")
MMD = "explicit-state enumeration of arguments over bounded alphabets and constructed worst cases, every argument evaluated by the code and by an independent multi-precision reference model (700 bits)"
prop("G01", "The constants are the nearest representable values",
 "Every constant of f256::consts is the f256 nearest to the mathematical constant; EPSILON, MAX, MIN, MIN_POSITIVE, MIN_GT_ZERO, DIGITS, MANTISSA_DIGITS, MAX_EXP, MIN_EXP, MAX_10_EXP, MIN_10_EXP have the meaning they have for f64.",
 "all 41 constants", "The values are typed in as integers; existing tests compare few of them with anything independent.",
 ["src/consts.rs", "src/lib.rs"], [("constant values", "consts.rs")], "Exhaustive: all constants.", technique=MMD)
prop("H01", "Logarithms are rounded correctly",
 "ln, log2 and log10 return, for every finite positive value (subnormals included), the value nearest to the exact logarithm (error at most 0.504 units of the last place of the exact result); exact for powers of two (log2) and ten (log10); NaN for negative numbers and NaN (and, as the code documents, for 0 and infinities).",
 "every value; explored: exponents over the whole range x 13 significands, all bit patterns around 1, (1+2^-i)(1+2^-j) and neighbours for all i, j <= 240, 1-2^-i and neighbours, powers of ten and their neighbours",
 "Cancellation for arguments next to 1 and single wrong entries of a table with 492 rows show only for particular arguments.",
 ["src/math/log.rs", "src/math/feynman.rs", "src/math/fp509.rs"], [("table of ln(1+2^-n)", "feynman.rs"), ("fixed-point rounding", "fp509.rs")],
 "Exhaustive over the stated families.", technique=MMD)
prop("H02", "Sine and cosine are rounded correctly for every argument",
 "sin, cos and sin_cos return, for every finite argument up to the largest one, the value nearest to the exact sine and cosine (error at most 0.504 units of the last place of the exact result); sin_cos agrees with sin and cos; sin(-x) = -sin(x), cos(-x) = cos(x); sin(±0) = ±0; NaN for infinities and NaN.",
 "every value; explored: exponents over the whole range x 13 significands, for every exponent the arguments closest to multiples of pi/2 (from continued fractions) and, for a grid of exponents, arguments at every order of distance from them, neighbours of the multiples of pi/4 and of 1/256, significand patterns around every change of algorithm, both signs",
 "The argument reduction loses its accuracy only for rare arguments next to a multiple of pi/2 and differs between five ranges of exponents.",
 ["src/math/circular_fns/reduce.rs", "src/math/circular_fns/two_over_pi.rs", "src/math/circular_fns/sin.rs", "src/math/circular_fns/cos.rs", "src/math/circular_fns/sin_cos.rs", "src/math/circular_fns/approx_sin.rs", "src/math/circular_fns/approx_cos.rs", "src/math/circular_fns/approx_sin_cos.rs", "src/math/fp509.rs", "src/math/big_float.rs"],
 [("argument reduction", "reduce.rs"), ("digits of 2/pi", "two_over_pi.rs"), ("quadrants and signs", "sin.rs, cos.rs, sin_cos.rs")],
 "Exhaustive over the stated families.", technique=MMD)
prop("H03", "The tangent is accurate for every argument",
 "tan returns, for every finite argument, a value at most two places from the f256 nearest to the exact tangent (it is the quotient of the rounded sine and cosine); tan(-x) = -tan(x), tan(±0) = ±0; NaN for infinities and NaN.",
 "as H02", "Next to the poles and zeros the result depends on the full accuracy of the argument reduction.",
 ["src/math/circular_fns/tan.rs", "src/math/circular_fns/sin_cos.rs", "src/math/circular_fns/reduce.rs"], [("poles and zeros", "tan.rs")],
 "Exhaustive over the stated families.", technique=MMD)
prop("H04", "Inverse circular functions are rounded correctly",
 "asin, acos and atan return the value nearest to the exact result (error at most 0.504 units of its last place) for every argument of their domain; NaN outside of [-1, 1] (asin, acos) and for NaN; asin and atan are odd and keep the sign of zero; atan(±inf) = ±pi/2, asin(±1) = ±pi/2, acos(1) = 0, acos(-1) = pi.",
 "every value; explored: exponents over the whole range x 13 significands, all numbers next to 1, 1-d*2^-i, arguments that reduce to multiples of 1/256, significand patterns around every change of algorithm, both signs",
 "Cancellation next to 1, shortcuts for tiny and huge arguments and a table with 256 rows need particular arguments.",
 ["src/math/circular_fns/asin_acos.rs", "src/math/circular_fns/atan.rs", "src/math/circular_fns/approx_atan.rs", "src/math/big_float.rs"],
 [("shortcuts", "atan.rs, asin_acos.rs"), ("table of arctangents", "approx_atan.rs"), ("cancellation", "asin_acos.rs")],
 "Exhaustive over the stated families.", technique=MMD)
prop("H05", "atan2 gives the angle in the right quadrant",
 "y.atan2(x) is the angle of the point (x, y) rounded to nearest (error at most 0.504 units of the last place), in (-pi, pi], with the sign of y, for all finite non-zero operands of any magnitude; for x = 0 it is ±pi/2, for infinite operands the limit (multiples of pi/4 as for f64), for y = 0 it is 0 or ±pi by the sign of x, 0 if both are zero; NaN if an operand is NaN.",
 "every pair of values; explored: all pairs and signs of a boundary set, all exponent differences from -1000 to 1000, quotients at the limits of the range, pairs of significand patterns in the same and neighbouring binades and at 22 quotient magnitudes where the algorithm changes, points on the unit circle at multiples of pi/16000",
 "The case analysis (which operand is larger, infinite, zero; signs; overflow of the quotient) is over pairs.",
 ["src/math/circular_fns/atan.rs", "src/math/circular_fns/approx_atan.rs", "src/math/big_float.rs"], [("case analysis", "atan.rs"), ("quotient of far operands", "atan.rs")],
 "Exhaustive over the stated families.", technique=MMD)
prop("H06", "Degrees and radians are converted accurately over the whole range",
 "to_degrees and to_radians are within one place of the f256 nearest to x*180/pi and x*pi/180 for every finite value, with overflow to a signed infinity and gradual underflow; zeros, infinities and NaN are kept.",
 "every value; explored: exponents over the whole range x 13 significands, all bit patterns at the limits of the range, the smallest subnormals, whole degrees, results around the largest finite value",
 "Scaling at both limits of the range.",
 ["src/lib.rs"], [("scaling of the product", "lib.rs mul_frac_pow2")],
 "Exhaustive over the stated families.", technique=MMD)
prop("S01", "Every sequence of operations gives, step by step, the correctly rounded results",
 "In a computation of any length each operation gives the result it has for its operands, independent of how these were obtained: operands that are results of earlier operations (zeros, subnormals, overflowed, cancelled and rounded values included) are handled like any other. The arithmetic operations, square root, rounding, scaling and ulp give the correctly rounded value; the elementary functions give the nearest value as stated for each of them.",
 "every sequence; explored: breadth first all states of a machine with two registers, 256 initial states and 23 instructions (+, -, *, /, %, fma, square_add, sum_of_squares, sqrt, recip, trunc, round, ulp, scaling, moves), every sequence of four (thorough: five) instructions; every sequence of four (five) of 18 elementary functions and simple steps from 16 initial values",
 "The operands tests use are literals; results of earlier operations have other patterns (full significands next to a cancellation, subnormals, values next to multiples of pi/2) - one defect was found only this way.",
 ["src/binops/add.rs", "src/binops/mul.rs", "src/binops/div.rs", "src/binops/rem.rs", "src/fused_ops/fma.rs", "src/fused_ops/sos.rs", "src/math/sqrt.rs", "src/math/circular_fns/reduce.rs", "src/math/circular_fns/approx_sin.rs", "src/lib.rs"],
 [("each operation on results of the others", "src/binops, src/fused_ops, src/math")],
 "Exhaustive: every sequence up to the stated length; states are deduplicated.", technique="explicit-state breadth-first exploration of all operation sequences up to a depth, every transition taken on the code and on the exact reference model")
prop("S02", "Exact identities between operations hold",
 "Programs of several operations keep the identities exact arithmetic promises for correctly rounded operations: two-sum and fast-two-sum give the rounded sum and its exact rounding error; fma(x, y, -x*y), fma(-x/y, y, x) and fma(-sqrt x, sqrt x, x) give the exact rounding errors of product, quotient and square root; trunc + fract is x, floor <= x <= ceil, the distance to round(x) is at most 1/2; x % y is smaller than y, has the sign of x and differs from x by an integral multiple of y.",
 "all operands without overflow of the result or underflow of its error; explored: all distances 0 to 480 of the operands' exponents around the changes of alignment x 87 x 87 significands (thorough: 402 x 87) at four places of the range, products and quotients of all pairs of significands, integral parts at all exponents of -4..240",
 "These are the building blocks of double-double arithmetic; they depend on exact cancellation of two operations, for every pair of significands.",
 ["src/binops/add.rs", "src/binops/mul.rs", "src/binops/div.rs", "src/binops/rem.rs", "src/fused_ops/fma.rs", "src/math/sqrt.rs", "src/lib.rs"],
 [("exact error terms", "add.rs, fma.rs"), ("integral and fractional part", "lib.rs")],
 "Exhaustive over the stated families; results compared with exact integer arithmetic.", technique="explicit-state enumeration of operands; every program of operations run on the code, its results compared with exact integer arithmetic")
prop("N01", "No operation panics and no result depends on the build profile",
 "No public operation on f256 values panics, except where documented (a precision above 75 in format strings, clamp with min > max or NaN bounds, the functions log and ln_1p, which are declared but not implemented), and every operation gives the same result, bit for bit, whether or not overflow checks and debug assertions are compiled in: no internal arithmetic overflows, no shift is out of range, no internal invariant (debug_assert) is broken.",
 "every operation and every operand; explored: the families of all other checks (arithmetic, remainder, fused operations, rounding, conversions, parsing, formatting, elementary functions), every second outermost case in the quick tier and all cases in the thorough tier, on a build with overflow checks and debug assertions; deviating cases are run again on the release build and compared",
 "Wrapping subtraction of exponents and shifts by the full width are silent in release builds and panic in debug builds; the existing tests run one profile only and few of the operands at the limits.",
 ["src/binops/add.rs", "src/binops/mul.rs", "src/binops/div.rs", "src/binops/rem.rs", "src/fused_ops/fma.rs", "src/fused_ops/sos.rs", "src/big_uint/uint_generic/mod.rs", "src/conv/from_str/mod.rs", "src/conv/to_str/dec_repr.rs", "src/math/big_float.rs"],
 [("debug_assert! invariants", "src/**"), ("shift amounts and exponent arithmetic", "src/**")],
 "Exhaustive over the stated families in the thorough tier; the quick tier takes every second outermost case of each family.", technique="explicit-state enumeration of the operand spaces of all other properties on a build with run-time checks; outcome (value or panic) compared with the reference models and with the release build")
