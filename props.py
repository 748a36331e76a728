"""Per property: harness entry points, the bounds they explore and what lies outside them."""

DIGITS = "base-10000 digits symbolic over all their values that fit the display scale"

PROPS = {
    "C01": {
        "entries": ["check_add", "check_add_wide", "check_add_limit", "check_add_distant", "check_add_long"],
        "bounds": "check_add: all pairs of operands of 0..2 base-10000 digits (thorough: 3 by 2) at weights -1..1, " + DIGITS + ", both signs, four display scales each, add and subtract; "
                  "check_add_wide: 31x31 pairs of 16 operand shapes up to 8 digits, weights -65..64, scales up to 16383, with 0..4 symbolic digits; check_add_limit: weights 32766/32767, both signs; check_add_distant: operands up to 36862 base-10000 digits apart; check_add_long: 5..260 digits (thorough 4..1030), nines, zeros or mixed, with up to 4 symbolic ones at the ends and in the middle",
        "outside": "operands with more digits or other weights than the listed shapes",
    },
    "C02": {
        "entries": ["check_mul", "check_mul_wide", "check_mul_carry", "check_mul_limit", "check_mul_long"],
        "bounds": "check_mul: all pairs of operands of 0..2 base-10000 digits (thorough 3 by 2), " + DIGITS + ", both signs; check_mul_wide: 31x18 operand shapes; "
                  "check_mul_carry: 21..45 by 21..43 digits (thorough up to 90 by 66) of 9999/9998/5000 with one symbolic digit; check_mul_limit: products at the largest weight and display scale; check_mul_long: 5..260 digits (thorough 4..1030), nines, zeros or mixed, by 1..9 digits, one of them symbolic over 32 values",
        "outside": "long operands with more than one symbolic digit",
    },
    "C03": {
        "entries": ["check_div", "check_div_signs", "check_div_digit", "check_div_wide", "check_div_zero", "check_div_long"],
        "bounds": "symbolic dividends (1..4 symbolic digits in 3..14 shapes) by concrete divisors (1, 2, 3 digits, chosen for hard quotient digit estimation), all signs; "
                  "check_div_digit: every divisor 1..1500, every 17th up to 9993, and 9980..9999 (thorough: every one 1..9999) by a symbolic one-digit dividend; check_div_wide: 15 distant, long or extreme pairs with one symbolic digit; zero dividends and divisors at every header form; check_div_long: dividends of 5..260 digits (thorough 4..1030), nines, zeros or mixed, by 11 divisors of 1..7 digits and by the digits of the dividend itself, the last digit symbolic over 32 values where the quotient ends with the dividend",
        "outside": "divisors other than the listed ones (the divisor is concrete on every path)",
    },
    "C04": {
        "entries": ["check_div_trunc", "check_trunc_digit", "check_rem", "check_rem_wide", "check_div_trunc_wide", "check_div_zero", "check_div_trunc_long"],
        "bounds": "as C03 for truncated quotient and remainder (check_rem_wide: 12 further distant, long or extreme pairs), with all sign combinations and 2-digit and 3-digit divisors against 2 or 3 symbolic dividend digits; check_trunc_digit: symbolic one-digit divisors; check_div_trunc_long: the operands of check_div_long",
        "outside": "symbolic divisors of two digits or more; remainders by symbolic divisors",
    },
    "C05": {
        "entries": ["check_round", "check_trunc", "check_round_wide", "check_round_carry", "check_round_limit", "check_ceil_floor", "check_round_long"],
        "bounds": "operands of 0..3 symbolic base-10000 digits (thorough 4) at weights -1..1, both signs, scales around every digit position; check_round_carry: 1, 2, 5 (thorough also 3, 4, 9) digits of 9999 with the last one symbolic at weights -17..24 (70), rounded at the last six decimal places; scales beyond +-1000, largest weight; ceil and floor also of operands with the fraction hundreds of digits down; check_round_long: operands of 5..260 digits (thorough 4..1030), nines, zeros or mixed, with symbolic ones at both ends and in the middle",
        "outside": "other operand lengths and weights than listed",
    },
    "C06": {
        "entries": ["check_cmp", "check_cmp_wide", "check_cmp_distant", "check_cmp_variants", "check_cmp_long"],
        "bounds": "all pairs of operands of up to 2 symbolic digits at weights -1..1, 31x31 pairs of wide shapes, 1..45 digits at distances up to 3000 base-10000 digits, NaN against everything; all comparison operators, owned and borrowed; check_cmp_long: operands of 5..260 digits (thorough 4..1030), nines, zeros or mixed, differing in one symbolic digit",
        "outside": "pairs of other lengths; transitivity follows from agreement with the order of the exact values",
    },
    "C07": {
        "entries": ["check_hash", "check_hash_wide", "check_hash_differs", "check_hash_long"],
        "bounds": "equal values at differing display scales and header forms, 1..3 symbolic digits, zero, NaN; the recorded stream of hasher calls is compared; check_hash_long: 5..260 digits (thorough 4..1030), nines, zeros or mixed, with symbolic ones",
        "outside": "hashers that look at anything but the calls made to them",
    },
    "C08": {
        "entries": ["check_header_short", "check_header_long", "check_header_zero", "check_long_operand", "check_header_results", "check_header_huge"],
        "bounds": "every 16-bit short header, every long header (all display scales 0..16383 and all weights -32768..32767 symbolic), every zero; results of operations crossing the boundaries 63/64 of scale and weight",
        "outside": "headers with other digit strings than those of 1..3 digits and sums of digits 2050 to 32767 places apart",
    },
    "C09": {
        "entries": ["check_parse_any", "check_parse_utf8", "check_parse_edit", "check_parse_long"],
        "bounds": "every ASCII string of up to 5 characters (thorough 6), strings with multi-byte characters, one-character edits of longer valid texts; accepted exactly when in the grammar, with the kind of error the grammar prescribes",
        "outside": "longer arbitrary strings",
    },
    "C10": {
        "entries": ["check_parse_value", "check_parse_limit", "check_parse_consts", "check_parse_long", "check_parse_word"],
        "bounds": "31 text templates with symbolic decimal digits, signs, exponents and white space; exponents and lengths at the overflow boundary; texts up to the largest scale; check_parse_word: texts of 9..40 digits (thorough 8..48), the two at each end symbolic, with no point or one before the first or last digit",
        "outside": "texts with more than 5 symbolic digits",
    },
    "C11": {
        "entries": ["check_text", "check_text_roundtrip", "check_text_long", "check_text_mid"],
        "bounds": "operands of up to 3 symbolic base-10000 digits (thorough 4) around the point, 16 wide shapes, digit seams, check_text_long: display scales and weights in the thousands; text compared digit by digit with the exact value, and parsed back to identical bytes; check_text_mid: 5..260 digits (thorough 4..1030), nines, zeros or mixed, with symbolic ones at both ends and in the middle",
        "outside": "other lengths and weights; width and precision flags of the formatter",
    },
    "C12": {
        "entries": ["check_from_int", "check_from_int_near", "check_from_bool"],
        "bounds": "all values of every integer type (i8..i128, u8..u128, isize, usize), symbolic over the whole range, converted and converted back",
        "outside": "nothing",
    },
    "C13": {
        "entries": ["check_to_int", "check_to_int_wide", "check_to_int_variants", "check_to_int_nan", "check_to_int_long"],
        "bounds": "all integer types; operands of up to 3 symbolic digits around the limits of each type and around rounding ties, both signs, NaN, huge weights; check_to_int_long: 3..130 (thorough ..260) digits with a symbolic unit digit and a fraction below, at or above one half",
        "outside": "operands with more symbolic digits",
    },
    "C14": {
        "entries": ["check_apply", "check_apply_wide", "check_apply_carry", "check_apply_none", "check_apply_limit", "check_apply_long"],
        "bounds": "operands of up to 2 symbolic digits, precision 1..9 and scales around them; carries into a new digit, no type modifier, NaN, values at the largest weight; check_apply_long: 5..260 digits (thorough 4..1030), nines, zeros or mixed, with symbolic ones",
        "outside": "other operand lengths",
    },
    "C15": {
        "entries": ["check_typmod_new", "check_typmod_precision", "check_typmod_eq", "check_typmod_text"],
        "bounds": "all pairs of 32-bit integers as precision and scale, all valid pairs of pairs for equality, text of all valid pairs",
        "outside": "nothing",
    },
    "C16": {
        "entries": ["check_nan_binary", "check_nan_unary", "check_nan_pow_log", "check_to_int_nan"],
        "bounds": "NaN on either or both sides of every operation of the API, the other operand NaN, zero, one of 16 wide shapes or one symbolic digit",
        "outside": "conversions to and from floating point",
    },
    "C17": {
        "entries": ["check_operators", "check_operators_wide", "check_operators_limit", "check_commutes"],
        "bounds": "5 operators x 12 owned/borrowed/assigning forms x operands (zero, NaN, 1..2 symbolic digits; check_operators_wide: 7 wide pairs); at the limits of the format; a+b = b+a, a-b = -(b-a)",
        "outside": "operators with primitive integers on one side, if any",
    },
    "C18": {
        "entries": ["check_neg", "check_abs", "check_sign", "check_inc", "check_inc_limit", "check_copy", "check_unary_long"],
        "bounds": "operands of up to 3 symbolic digits, 16 wide shapes, the extreme weights and scales; in-place and copying forms; check_unary_long: 5..260 digits (thorough 4..1030), nines, zeros or mixed, with symbolic ones",
        "outside": "other operand lengths",
    },
    "C19": {
        "entries": ["check_normalize", "check_normalize_eq", "check_normal_mid"],
        "bounds": "operands of up to 2 symbolic digits (thorough 3), 16 wide shapes; equal values at 5 other display scales; zeros; check_normal_mid: 5..260 digits (thorough 4..1030), nines, zeros or mixed, with symbolic ones",
        "outside": "other operand lengths",
    },
    "C20": {
        "entries": ["check_sci", "check_sci_limit", "check_text_long", "check_sci_mid"],
        "bounds": "one symbolic base-10000 digit at any position of 17 shapes (thorough: two), both letters, owned and borrowed; exponents of two to six digits; check_sci_mid: 5..260 digits (thorough 4..1030), nines, zeros or mixed, the last one symbolic",
        "outside": "operands with more symbolic digits; width and precision flags of the formatter",
    },
    "C23": {
        "entries": ["check_pow_int", "check_pow_higher", "check_pow_wide", "check_pow_exponents", "check_pow_large", "check_pow_long", "check_pow_negative", "check_pow_special"],
        "bounds": "exponents 0..2 with bases of one or two symbolic digits; exponents 3..7 (thorough ..16) with base digits 1..20 (40) symbolic; 12 concrete bases with exponents up to 31 (100), check_pow_exponents: bases 1, 2, 0.7 and 10000.0001 to every exponent 3..300 (800); reciprocals of 13 concrete bases; zero base, base one, overflow; check_pow_large: powers of 1, -1, 10 and -10 to exponents of 1000..131071; check_pow_long: single digits at weights -3..4 to exponents 2..12 (40), bases of 3..9 (17) digits to exponents 1..4",
        "outside": "fractional exponents, exponents beyond 100, bases with more symbolic digits",
    },
    "C24": {
        "entries": ["check_from_f64", "check_from_f32", "check_from_float_special", "check_to_f64", "check_to_f32", "check_to_float_long", "check_to_float_special"],
        "bounds": "from floats: 40 (f64) and 28 (f32) forms of printed number with every digit symbolic, of up to 15 and 6 digits and exponents -307..307 and -38..38, both signs, plus NaNs, infinities, zeros; snprintf is modelled by the text of the number. "
                  "To floats: 28 and 14 shapes with one symbolic base-10000 digit, up to 15 and 7 decimal digits, against one exact IEEE operation; 33 shapes x 21 concrete digits around ties and the ends of the range, against exact integers",
        "outside": "floats whose text has another form, subnormal floats as input, symbolic digits in numbers of more than 15 decimal digits; the C library's own formatting is trusted",
    },
    "C25": {
        "entries": ["check_factorial"],
        "long_paths": True,
        "bounds": "every 64-bit argument below 2 and above 32177 symbolically, every argument 2..200 (thorough 2..400), and 500, 1009, 2500, 10001 (thorough also 5000, 12000)",
        "outside": "the other arguments up to 32177",
    },
    "C26": {
        "entries": ["check_add_limit", "check_mul_limit", "check_inc_limit", "check_round_limit", "check_apply_limit", "check_parse_limit", "check_operators_limit"],
        "bounds": "operands at weights 32766/32767 and display scales up to 16383 with symbolic leading digits; sums, products, quotients, increments, rounding, type modifiers, parsing",
        "outside": "operands in between",
    },
    "C27": {
        "entries": ["check_history", "check_no_leak"],
        "bounds": "all sequences of 2 (thorough 3) out of 15 in-place or consuming operations on an owned numeric of 2 digits, one symbolic, then one of 5 ways to consume it; every allocating function; heap objects counted, every load, store and release checked",
        "outside": "longer histories, concurrent use, allocation failure",
    },
    "C28": {
        "entries": ["check_domain", "check_zero_divisor", "check_pow_special"],
        "release": ["check_domain", "check_zero_divisor", "check_pow_special"],
        "bounds": "roots of negative operands, logarithms of zero and negative operands or bases, of 10 shapes with up to 3 symbolic digits; division by every form of zero; zero to negative and negative to fractional powers, exponents of display scale up to 1000; with and without debug assertions",
        "outside": "other operand lengths",
    },
    "C29": {
        "entries": [],
        "features": {"big-endian-varlen": ["check_header_short", "check_header_long", "check_header_zero", "check_header_results", "check_header_huge", "check_add",
                                           "check_parse_consts", "check_text", "check_nan_unary", "check_copy", "check_no_leak"]},
        "bounds": "the crate compiled with feature big-endian-varlen: every 16-bit short header, every long header, every zero, results crossing the header boundaries, addition of operands of 0..2 symbolic digits, NaN, "
                  "parsing constants, text, copies and consuming conversions",
        "outside": "the other operations under this feature (they do not touch the length word), numerics of 2^30 bytes",
    },
    "C30": {
        "entries": [],
        "features": {"serde": ["check_serde_roundtrip", "check_serde_bytes", "check_serde_text"]},
        "bounds": "the crate compiled with feature serde: values (NaN, zero, 1..2 symbolic digits, 16 wide shapes) through a human-readable and a binary format that hands data out borrowed, transient or owned; "
                  "every byte string of up to 10 bytes (thorough 14) with a right or a half wrong length word, at even and odd addresses; every ASCII text of up to 3 characters",
        "outside": "the wire encodings of particular formats, byte strings whose length word is wrong in both halves, longer arbitrary bytes",
    },
}
