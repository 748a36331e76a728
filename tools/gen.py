#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts are here, the bounds in props.py)."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS

P = []


def prop(i, title, statement, over, text, why, files, mech, na=None):
    P.append((i, title, statement, over, text, why, files, mech, na))


V, N, B = "src/var.rs", "src/num.rs", "src/binary.rs"
prop("C01", "Addition and subtraction are exact",
     "For any two numerics the sum and the difference are the exact mathematical results, with the larger of the two display scales. Whether the result is returned or reported as overflow depends only on whether its magnitude is below 10^131072.",
     ["inputs"], "all pairs of numerics: digits, weights, display scales, signs",
     "The tests add a handful of literals; carries and borrows that cross digit boundaries, distant weights and the overflow boundary are not sampled.",
     [V, N], [("signed addition by magnitude", "src/var.rs add_common/sub_common/add_abs/sub_abs"), ("overflow check", "src/var.rs make_result")])
prop("C02", "Multiplication is exact",
     "For any two numerics the product is the exact mathematical result, its display scale the sum of the two scales. A product beyond the largest magnitude or display scale is reported as overflow and never returned wrong.",
     ["inputs"], "all pairs of numerics",
     "Deferred carry propagation goes wrong only for long strings of large digits, which the tests' literals do not contain.",
     [V, N], [("schoolbook product with delayed carries", "src/var.rs mul_common")])
prop("C03", "Division is correctly rounded",
     "The quotient of two numerics is the exact quotient rounded half away from zero at the scale PostgreSQL selects (at least 16 significant digits, at least either operand's scale, at most 1000). Its sign is the product of the signs.",
     ["inputs"], "all dividends and non-zero divisors",
     "Errors of quotient-digit estimation occur for about one operand pair in ten thousand; tests compare a few literals.",
     [V, N], [("long division with digit estimation", "src/var.rs div_common"), ("scale selection", "src/var.rs select_div_scale")])
prop("C04", "Truncated quotient and remainder satisfy the division identity",
     "The truncated quotient is the exact quotient cut towards zero, and dividend = quotient * divisor + remainder holds exactly, with the remainder smaller than the divisor in magnitude and of the dividend's sign. The remainder keeps the larger display scale of the operands.",
     ["inputs"], "all dividends and non-zero divisors",
     "The identity has to hold for every pair; tests compare a few literals.",
     [V, N], [("truncating division", "src/var.rs div_common/mod_common")])
prop("C05", "Rounding and truncation at any scale",
     "Rounding to a scale gives the nearest multiple of that unit with ties away from zero, truncation the multiple towards zero, ceiling and floor the neighbouring integers. The display scale becomes the requested scale (not below zero), and requests beyond 1000 digits on either side act like 1000.",
     ["inputs"], "all numerics, all scales",
     "Carries that ripple through several digits or create a new leading digit, and scales at digit boundaries, are not all sampled.",
     [V, N], [("rounding within and across digits", "src/var.rs round_common/trunc_common"), ("ceil and floor", "src/var.rs ceil_common/floor_common")])
prop("C06", "Comparison is the numeric order",
     "Comparing two numerics orders them by mathematical value whatever their display scales and encodings, with NaN equal to itself and greater than every number. All comparison operators, equality and partial order included, agree with that one order for owned and borrowed values.",
     ["inputs"], "all pairs of numerics including NaN",
     "A total order is a statement over all pairs; tests sample a few.",
     [V, N, "src/ops.rs"], [("magnitude comparison", "src/var.rs cmp_common/cmp_abs"), ("trait implementations", "src/num.rs cmp, PartialEq/Ord")])
prop("C07", "Equal numerics hash equally",
     "Numerics that compare equal feed identical data to a hasher, whatever their display scale or encoding, owned or borrowed. Numerics of different value, weight or sign feed different data.",
     ["inputs"], "all pairs of equal numerics",
     "Tests hash a few literals; the guarantee concerns every pair of representations.",
     [N], [("hash over stripped digits", "src/num.rs Numeric::hash")])
prop("C08", "Binary encoding is canonical and decodes to what was encoded",
     "Every numeric produced by the library has the one canonical encoding of its value and display scale: the short header exactly when scale and weight fit it, no leading or trailing zero digits, correct total length, unsigned zero. Every valid header, short or long, is read back with exactly its sign, weight and scale.",
     ["inputs"], "all header words, all scales 0..16383 and weights, all results",
     "There are 2^16 short headers and 2^31 long ones; tests see a few dozen.",
     [B, V], [("header bit fields", "src/binary.rs NumericBinary/NumericHeader"), ("choice of header", "src/var.rs into_numeric_buf")])
prop("C09", "Parsing accepts exactly the documented grammar",
     "A string parses exactly when it is optional white space around NaN or a decimal number with optional sign, fraction and exponent; everything else is rejected with the kind of error that fits (empty, invalid, overflow). Parsing never panics.",
     ["inputs"], "all strings",
     "Tests list a few dozen strings; the grammar is a statement over all of them.",
     ["src/parse.rs"], [("character scanner", "src/parse.rs parse_str")])
prop("C10", "Parsing yields the exact value and scale",
     "A parsed number has exactly the value written, with the display scale given by the fraction digits and the exponent. A value is reported as overflow only if it cannot be represented.",
     ["inputs"], "all valid number strings",
     "Alignment of decimal digits into base-10000 groups depends on the exponent modulo 4 and on the digits; tests cover few combinations.",
     ["src/parse.rs", V], [("digit grouping and exponent", "src/parse.rs set_str"), ("overflow check", "src/var.rs make_result")])
prop("C11", "Text output is exact and parses back to the same numeric",
     "The text of a numeric shows its exact value with exactly its display scale many fraction digits, no superfluous leading zeros, and a minus sign only for negative values. Parsing that text gives back a numeric with identical bytes.",
     ["inputs"], "all numerics",
     "Tests format a few literals; zero padding inside digit groups and partial last groups depend on every digit.",
     [V, "src/parse.rs"], [("formatter", "src/var.rs write"), ("parser", "src/parse.rs")])
prop("C12", "Integers convert to numerics exactly and back",
     "Every value of every built-in integer type converts to the numeric of that value with display scale 0, and converting back gives the same integer. Booleans convert to 0 and 1.",
     ["inputs"], "all values of all integer types",
     "The tests convert the minimum, the maximum and a few values of each type.",
     ["src/convert.rs", V], [("digit extraction", "src/convert.rs From impls")])
prop("C13", "Conversion to integers rounds, and refuses what does not fit",
     "Converting a numeric to an integer type gives the value rounded half away from zero if that lies in the type's range, and an error otherwise. NaN is always an error, and no conversion wraps, truncates or panics.",
     ["inputs"], "all numerics, all integer types",
     "Wrap-around occurs only for values within a rounding unit of a type's limit or far beyond it; tests try the limits themselves.",
     ["src/convert.rs"], [("checked accumulation", "src/convert.rs TryFrom impls")])
prop("C14", "Applying a type modifier rounds and reports overflow correctly",
     "Applying precision p and scale s rounds the value to s fraction digits and reports overflow exactly when the rounded value needs more than p - s integer digits; without a type modifier nothing changes. The value stays a valid numeric either way, and NaN passes.",
     ["inputs"], "all numerics, all precisions and scales",
     "The interesting cases are values that round up to a further digit, and leading digits of every decimal length; tests sample few.",
     [V, N], [("rounding and digit count", "src/var.rs apply_typmod")])
prop("C15", "Type modifiers encode and decode losslessly",
     "A type modifier can be made exactly for precision 1..1000 and scale 0..precision, its encoded value is PostgreSQL's, and precision and scale are recovered from it. Different modifiers have different values, and the text shows precision and scale.",
     ["inputs"], "all pairs of 32-bit integers",
     "There are half a million valid pairs and 2^64 invalid ones; tests try a dozen.",
     ["src/typmod.rs"], [("packing", "src/typmod.rs new/extract")])
prop("C16", "NaN propagates through every operation",
     "An operation with a NaN operand returns NaN instead of failing or inventing a number, except for the two power identities NaN^0 = 1 and 1^NaN = 1. Division of NaN by zero is NaN too, and conversions of NaN to integers fail.",
     ["inputs"], "every operation, NaN on either side, any other operand",
     "Tests pair NaN with a few numbers for some operations; the guarantee is about every operation and operand.",
     [N, "src/ops.rs", V], [("NaN tests before dispatch", "src/num.rs checked_*")])
prop("C17", "All forms of an operation agree",
     "An operator gives the same bytes for owned, borrowed and assigning forms as the checked function, leaves borrowed operands alone, and panics exactly when the checked function reports an error. Sums do not depend on operand order, and a - b is the negation of b - a.",
     ["inputs"], "all operand pairs in all call forms",
     "There are 60 combinations of operator and ownership; tests exercise some with a few literals.",
     ["src/ops.rs", N], [("operator implementations", "src/ops.rs macros")])
prop("C18", "Sign operations and increments",
     "Negation, absolute value, sign, increment, copying and the accessors give the mathematically correct result with the right display scale for every numeric, in place or not. Zero never becomes negative.",
     ["inputs"], "all numerics",
     "Header bits of both forms and carries of the increment over any number of digits are not all sampled.",
     [N, B, V], [("sign bits in the header", "src/binary.rs"), ("increment", "src/var.rs inc")])
prop("C19", "Normalized text identifies the value",
     "Normalization gives the text of the exact value without trailing zeros of the fraction and without a dangling point. Two numerics have the same normalized text exactly when they compare equal.",
     ["inputs"], "all numerics, all pairs",
     "Tests normalize a few literals.",
     [V], [("normalize", "src/var.rs normalize")])
prop("C20", "Scientific notation is exact and normalized",
     "The scientific text has one non-zero digit before the point, no trailing zeros after it, the letter asked for and a signed exponent of at least two digits, and denotes exactly the value of the numeric. Zero is written with exponent zero.",
     ["inputs"], "all numerics",
     "The scale and exponent depend on leading and trailing zeros of the first and last digit groups; tests try a few.",
     [V], [("exponent and denominator", "src/var.rs write_sci/select_sci_scale")])
prop("C21", "Square roots are correctly rounded",
     "The square root of a non-negative numeric is within half a unit of its last place, with at least 16 significant digits.",
     ["inputs"], "all non-negative numerics",
     "Tests compare a few literals.",
     [V], [("Newton iteration", "src/var.rs sqrt_common")],
     na="The root is found by Newton's iteration whose divisor is the previous iterate: symbolically that is a chain of ten or more long divisions by symbolic multi-digit divisors, which neither z3 nor cvc5 decides within minutes even for one symbolic digit; with the operand fixed on each path it would be an enumeration of concrete runs. The domain of the root is covered by C28.")
prop("C22", "Exponential, logarithm and fractional powers are accurate",
     "exp, ln, log and powers with fractional exponents are accurate to the last digit of the selected scale.",
     ["inputs"], "all numerics in the domain",
     "Tests compare a few literals.",
     [V], [("Taylor series with argument reduction", "src/var.rs exp_common/ln_common/log_common/power_common")],
     na="The reference is a transcendental function, which the available solvers do not decide, and the implementation iterates a series of long divisions until a term vanishes, with scales chosen by floating-point estimates. Domains are covered by C28, NaN by C16.")
prop("C23", "Integer powers are exact or correctly rounded",
     "A numeric raised to a small non-negative integer power is the exact power, rounded at the selected scale if it has more fraction digits than that; negative exponents give the reciprocal within one unit of the last place. Zero and one as base or exponent give exactly what arithmetic says, and results beyond the format are reported as overflow.",
     ["inputs"], "all bases, integer exponents",
     "The working precision of each multiplication depends on estimates from the base and the exponent; tests try a few pairs.",
     [V], [("square and multiply", "src/var.rs power_int")])
prop("C24", "Floating-point conversions",
     "Converting a finite float gives exactly the decimal number the float prints as with 15 (f64) or 6 (f32) significant digits, with just the scale those digits need; NaN gives NaN and infinities are refused. Converting a numeric gives the nearest float, ties to even; beyond its range f64 gives infinity or zero, and f32 refuses the value.",
     ["inputs"], "all floats, all numerics",
     "Tests convert a few values; lost digits, a wrong scale or a second rounding show up only for particular digit patterns and exponents.",
     ["src/convert.rs"], [("decimal conversion by the C library's %g and by parsing the decimal text", "src/convert.rs from_floating, TryFrom<&NumericVar> for f32/f64")])
prop("C25", "Factorials",
     "The factorial of n is the exact product 1*2*...*n with display scale 0, 1 for every n below 2, and overflow exactly when the product is not representable.",
     ["inputs"], "all 64-bit integers",
     "Tests compute a dozen values.",
     [V, N], [("product loop and bound", "src/var.rs factorial")])
prop("C26", "Results at the limits of the format are right or reported",
     "At the largest magnitude and the largest display scale every operation either returns the exact or correctly rounded result, or reports overflow through its return value. It never wraps, never returns a damaged numeric and never panics where it promises a return value.",
     ["inputs"], "all operands near the limits",
     "Tests contain almost no operands of 131072 digits or scale 16383.",
     [V, N], [("overflow check of results", "src/var.rs make_result"), ("reserved digit for carries", "src/data.rs")])
prop("C27", "Histories of operations keep numerics valid and memory safe",
     "After any sequence of in-place and consuming operations a numeric is what the same operations on fresh copies would give. No sequence reads or writes outside its buffers, reads uninitialised memory, releases memory twice or with another layout, or leaks.",
     ["histories", "inputs"], "all sequences of operations on an owned numeric",
     "Buffers are reused with changing offsets, so faults need particular sequences; tests run single operations and do not check memory.",
     ["src/data.rs", N, V], [("buffer ownership and offsets", "src/data.rs NumericData"), ("release", "src/num.rs Drop for NumericBuf")])
prop("C28", "Undefined operations are refused",
     "Division by zero, roots of negative numbers, logarithms of non-positive numbers, zero to a negative power and negative numbers to fractional powers are refused for every operand, by the documented panic or an empty result. They never yield a number.",
     ["inputs"], "all operands outside the domain",
     "Tests try one or two operands each.",
     [N, "src/ops.rs", V], [("domain assertions", "src/num.rs, src/ops.rs, src/var.rs")])

prop("C29", "Big-endian length words",
     "With the crate feature big-endian-varlen the first four bytes of every numeric hold its length in network byte order, and everything else is as without the feature: headers read and write back exactly, and results, NaN and zero carry the right length.",
     ["inputs"], "all header words, all results, with the feature on",
     "The repository's tests run without the feature, so no test executes that code.",
     [B], [("length word", "src/binary.rs encode_len/decode_len")])
prop("C30", "Serialization round-trips and refuses malformed input",
     "With the crate feature serde every numeric, owned or borrowed, reads back from what it was written as with identical bytes, from human-readable formats (as text) and from binary ones (as bytes), whether a format hands data out borrowed, transient or owned. Text that does not parse and bytes that are not a numeric in canonical form are refused with an error, without panic or access outside the bytes.",
     ["inputs"], "all numerics, all byte strings, all texts",
     "The tests round-trip a few literals through two formats; malformed input is not tested.",
     [N], [("serde implementations", "src/num.rs Serialize/Deserialize")])

# ---- more properties are appended here
exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as h:
    for (i, title, st, over, text, why, files, mech, na) in P:
        assert len(title) <= 80, title
        h.write(json.dumps({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                            "why_tests_cant": why,
                            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
checks, nas = [], []
for p in P:
    i, na = p[0], p[8]
    if na:
        nas.append({"property": i, "reason": na})
        continue
    c = PROPS[i]
    checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
                   "technique": "symbolic execution of the crate's LLVM IR with SMT (z3, cvc5)",
                   "level": "model_checking",
                   "level_note": "Holds for every value of the symbolic inputs on every path of the compiled crate within the bounds: " + c["bounds"] +
                   ". Outside: " + c.get("outside", "nothing") + ". Trusts the executor in symex/, z3 and cvc5, and rustc's IR for the debug profile; counterexamples are replayed natively in debug and release builds."})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": nas,
           "notes": "No hooks in /repo. See DESIGN.md."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(nas), "not applicable")
