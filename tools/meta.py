#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "tests/*.rs and the in-file unit tests"
P = []
def prop(id, title, statement, quant, why, files, mech, note, technique=None, na=None, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files,
                  mech=mech, note=note, technique=technique, na=na, over=list(over)))
RM = "explicit-state enumeration of operand alphabets, every case run on the code and on an exact reference model"
TRUST = " Trusted: the reference model (mc/src/model.rs on mc/src/big.rs, exact integer arithmetic and one rounding step, no code shared with the crate)."

prop("A01", "Addition and subtraction are correctly rounded",
 "For all values a and b, a + b and a - b are the mathematical result rounded once to nearest with ties to even, for normal, subnormal, overflowing and cancelling operands alike. Zero results, infinities and NaN follow IEEE 754 (x - x = +0, -0 + -0 = -0, inf - inf = NaN).",
 "every pair of binary256 operands; explored: all pairs of a boundary alphabet and every exponent distance x significand patterns that produce ties, sticky bits and cancellation",
 "The tests sample random operands of similar magnitude; the failing inputs of a rounding bug are ties, one-bit sticky tails and single exponent distances that random operands never hit.",
 ["src/binops/add.rs", "src/big_uint/uint_generic/mod.rs"], [("guard/sticky rounding", "add.rs: add/sub helpers")],
 "Exhaustive over the stated alphabets (tens of millions of operand pairs); outside them only as far as the alphabets represent the branch structure.")
prop("A02", "Multiplication is correctly rounded",
 "For all values a and b, a * b (and square()) is the mathematical product rounded once to nearest with ties to even, including products that become subnormal, underflow to zero or overflow to infinity. Signs, zeros, infinities and NaN follow IEEE 754.",
 "every operand pair; explored: boundary alphabet squared, all two-bit significand pairs (every exact tie), every result exponent around the subnormal and overflow thresholds",
 "Ties and lost sticky bits in products need specially built significands; the product tests use random normal operands.",
 ["src/binops/mul.rs", "src/big_uint/uint_generic/binops/mul.rs"], [("mul_abs_finite rounding", "mul.rs")],
 "Exhaustive over the stated alphabets.")
prop("A03", "Division and reciprocal are correctly rounded",
 "For all values a and b, a / b is the mathematical quotient rounded once to nearest with ties to even, including subnormal, underflowing and overflowing quotients, and recip() equals 1 / x. Division by zero gives a signed infinity, 0/0 and inf/inf give NaN.",
 "every operand pair; explored: boundary alphabet squared, quotients constructed to sit next to a rounding boundary, every result exponent around the thresholds",
 "Quotients close to a tie are built from the divisor; random operands almost never come close to one.",
 ["src/binops/div.rs", "src/big_uint/uint_generic/binops/divrem.rs"], [("long division with remainder as sticky bit", "div.rs")],
 "Exhaustive over the stated alphabets.")
prop("A04", "Remainder is exact with the sign of the dividend",
 "For all finite a and all non-zero b, a % b is exactly a - b * trunc(a / b), however far the exponents are apart; it is never rounded and never panics. A zero remainder has the sign of a, and NaN, infinite dividends and zero divisors give NaN.",
 "every operand pair; explored: boundary alphabet squared, all exponent distances to a bound and selected ones to the full range, divisors that stress the quotient estimate",
 "The reduction loops over the exponent distance: a mistake in one estimate step shows only for special divisors and distances.",
 ["src/binops/rem.rs", "src/big_uint/uint_generic/binops/divrem.rs"], [("512 by 256 bit division", "divrem.rs"), ("exponent reduction", "rem.rs")],
 "Exhaustive over the stated alphabets and exponent distances.")
prop("A05", "Fused multiply-add rounds only once",
 "For all x, y and a, x.mul_add(y, a) is x * y + a computed exactly and rounded once to nearest with ties to even, including massive cancellation and subnormal, underflowing or overflowing results; square_add(a) is the same with y = x. Zeros, infinities and NaN follow IEEE 754.",
 "every operand triple; explored: boundary alphabet cubed, every alignment of product and addend, cancelling and tie-producing addends derived from the exact product",
 "Three operands, about 750 alignments of the addend and special significands: sampled triples never line up on the rounding bit.",
 ["src/fused_ops/fma.rs"], [("u768 alignment and rounding", "fma.rs")],
 "Exhaustive over the stated alphabets.")
prop("A06", "Sum of squares rounds only once",
 "For all x and y, x.sum_of_squares(y) is x*x + y*y computed exactly and rounded once to nearest with ties to even, including results that overflow or become subnormal. It is symmetric in its operands and never negative; infinite operands give +inf unless the other is NaN.",
 "every operand pair; explored: boundary alphabet squared, all exponent distances up to where the smaller square vanishes, two-bit significands",
 "The rounding decision depends on bits hundreds of places below the result.",
 ["src/fused_ops/sos.rs"], [("sticky accumulation of the smaller square", "sos.rs")],
 "Exhaustive over the stated alphabets.")
prop("A07", "Square root is correctly rounded",
 "For all x >= 0, x.sqrt() is the exact square root rounded once to nearest, for both exponent parities and for subnormals. sqrt(-0) is -0, negative values and NaN give NaN, +inf gives +inf.",
 "every operand; explored: every exponent field x significand alphabet, all perfect squares of small integers with their neighbours and midpoints",
 "Roots next to a midpoint of two neighbouring values are rare and have to be constructed.",
 ["src/math/sqrt.rs"], [("digit recurrence", "sqrt.rs")],
 "Exhaustive over the stated alphabets.")
prop("A08", "Scaling by powers of two is exact or rounded once",
 "mul2, div2, mul_pow2(n) and div_pow2(n) return x * 2^n or x / 2^n for every n up to u32::MAX: exact unless the result is subnormal, then rounded once to nearest with ties to even, overflowing to a signed infinity and underflowing to a signed zero. Zeros, infinities and NaN are unchanged.",
 "every value and every u32 shift; explored: boundary values x every shift that crosses a threshold, every exponent x selected shifts",
 "The exponent field is manipulated directly: off-by-one thresholds exist only at single (exponent, shift) combinations.",
 ["src/lib.rs"], [("exponent field arithmetic", "lib.rs: mul_pow2, div_pow2")],
 "Exhaustive over the stated alphabets.")
prop("A09", "All forms of an operator agree",
 "For each of + - * / % the result does not depend on whether operands are passed by value or by reference or combined by assignment; the zero/one traits agree with the constants 0 and 1.",
 "every operand pair and each of the six syntactic forms; explored: all ordered pairs of a boundary alphabet",
 "The forwarding impls are generated by macros; the tests call the by-value forms.",
 ["src/binops/mod.rs", "src/num_traits.rs"], [("forward_ref_binop / forward_op_assign", "binops/mod.rs")],
 "Exhaustive over the stated alphabet.")
prop("B01", "Comparison operators follow the mathematical order",
 "For all a and b the operators ==, !=, <, <=, >, >= and partial_cmp agree with the order of the real values, with -0 equal to +0. Any comparison with NaN is false (!= is true) and partial_cmp is None.",
 "every ordered pair; explored: all ordered pairs of a boundary alphabet plus all one-bit differences of the encodings",
 "A comparison bug affects pairs that differ in one word or sign; the tests compare a handful of pairs.",
 ["src/binops/cmp.rs", "src/lib.rs"], [("raw bit comparison", "cmp.rs")],
 "Exhaustive over the stated alphabet. The reversed order of two negative values is a known finding; any other deviation is reported.")
prop("B02", "total_cmp is the IEEE totalOrder",
 "total_cmp orders all values, NaNs and signed zeros included, as -NaN < -inf < negative numbers < -0 < +0 < positive numbers < +inf < +NaN, returns Equal exactly for identical representations, and is antisymmetric and transitive.",
 "every ordered pair of encodings; explored: all ordered pairs of a boundary alphabet plus all one-bit differences",
 "The tests check one short chain of values.",
 ["src/lib.rs"], [("sign-flipped bit comparison", "lib.rs: total_cmp")],
 "Exhaustive over the stated alphabet (agreement with a total order on all pairs implies antisymmetry and transitivity on it). The reversed order of two negative encodings is a known finding; any other deviation is reported.")
prop("B03", "Classification and sign operations match the encoding",
 "is_nan, is_infinite, is_finite, is_subnormal, is_normal, classify, eq_zero, is_special and the sign predicates are mutually consistent and agree with the IEEE 754 class of every encoding. abs and negation change the sign bit only.",
 "every encoding; explored: every exponent field value x boundary fractions and all one- and two-bit fractions at boundary exponents",
 "2^256 encodings; NaN payloads in the low word and other corner encodings are not in the tests.",
 ["src/lib.rs"], [("masked comparisons with a sticky low word", "lib.rs")],
 "Exhaustive over the stated alphabets.")
prop("B04", "min, max and clamp select the right operand",
 "min and max return the smaller or larger operand and ignore a NaN operand; clamp returns the value limited to [lo, hi], keeps NaN, and panics exactly when lo <= hi does not hold.",
 "every pair and triple; explored: all pairs and all triples of boundary alphabets",
 "Interplay of NaN, signed zeros and signs needs all combinations.",
 ["src/lib.rs"], [("built on partial_cmp", "lib.rs: min, max, clamp")],
 "Exhaustive over the stated alphabets. The reversed order of two negative values is a known finding; any other deviation is reported.")
prop("C01", "Rounding to integers is exact in every mode",
 "trunc, floor, ceil, round (half away from zero) and round_tie_even return the exact integral value their mode prescribes for every value, keep the sign (also of a zero result), and leave integral values, infinities and NaN unchanged. fract and split give the exact remaining fraction.",
 "every value; explored: every position of the radix point x fraction patterns just below, at and just above the rounding boundary x integer parts of both parities",
 "240 radix point positions with halfway neighbours in two words; the tests take a few literals.",
 ["src/lib.rs"], [("nearest_integral, round, round_tie_even", "lib.rs")],
 "Exhaustive over the stated alphabets.")
prop("C02", "ulp is the distance to the next representable value",
 "For every finite value ulp() is the weight of its last significand digit, including subnormals and values whose ulp is subnormal; infinities and NaN give NaN.",
 "every value; explored: every exponent field x boundary fractions",
 "The exponent threshold where the ulp becomes subnormal is one exponent out of half a million.",
 ["src/lib.rs"], [("ulp", "lib.rs")],
 "Every exponent is covered; the fraction does not matter for the definition and is varied over an alphabet.")
prop("D01", "Conversion from integers and floats is exact",
 "From<T> for i8..i128, u8..u128, f32 and f64 gives exactly the same mathematical value, sign of zero, subnormals, infinities and NaN included.",
 "every source value; explored: all 8 and 16 bit integers, all runs of ones and two-bit patterns of the wider ones, every f32/f64 exponent x fraction patterns (thorough: all 2^32 f32 values)",
 "Extreme values (i128::MIN, subnormal f64) and single bit positions; the tests take a few numbers.",
 ["src/conv/from_int.rs", "src/conv/from_float.rs"], [("from_i64/from_i128/from_u64/from_u128", "from_int.rs"), ("From<F: Float>", "from_float.rs")],
 "Exhaustive for 8 and 16 bit sources and (thorough) f32; alphabets for the others.")
prop("D02", "Bits, bytes and sign/exponent/significand round-trip",
 "to_bits/from_bits and the big, little and native endian byte conversions are lossless for every encoding (NaN payloads included) and give the documented byte order. Taking a finite value apart into sign, exponent and significand and reassembling it gives the value back.",
 "every encoding; explored: boundary values, all one- and two-bit encodings and their complements, every exponent",
 "The tests round-trip the single value 10; a symmetric mistake in both directions passes a round trip.",
 ["src/lib.rs"], [("to_*_bytes, from_*_bytes", "lib.rs"), ("decode / encode", "lib.rs")],
 "Exhaustive over the stated alphabets.")

# --- later properties are appended by meta2.py-style blocks below ---
EXTRA = os.path.join(ROOT, "tools", "meta_extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": ["public API of the crate"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick",
                   "thorough_cmd": f"bin/check {p['id']} thorough",
                   "technique": p["technique"] or RM, "level": "model_checking",
                   "level_note": p["note"] + TRUST})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every check uses the public API of the crate. bin/check rebuilds the crate from /repo's working tree."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "checks")

# generated sections of DESIGN.md
def section(s, name, text):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + "\n" + text + s[j:]
d = open(os.path.join(ROOT, "DESIGN.md")).read()
t = ""
for p in P:
    if p["na"]:
        t += f"**{p['id']} {p['title']}.** Not applicable: {p['na']}\n\n"
        continue
    t += f"**{p['id']} {p['title']}.** Explored: {p['quant'].split('explored: ')[-1]}. Beyond the tests because: {p['why']} {p['note']}\n\n"
d = section(d, "props", t)
t = "| change | property | needs | caught by |\n|---|---|---|---|\n"
sd = os.path.join(ROOT, "seeded")
for n in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    t += f"| {n} | {m['property']} | {m['needs']} | {m['property']} quick |\n"
d = section(d, "seeds", t)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(d)
