//! Symbolic checks of the pgnumeric crate. Every `check_*` function is an entry point of
//! the symbolic executor; the same functions are the native replay of counterexamples.
mod arith;
mod cmp;
mod div;
mod enc;
mod fl;
mod fmt;
mod func;
mod ints;
mod mem;
mod nan;
mod parse;
mod round;
#[cfg(feature = "serde")]
mod sd;
mod typmod;
mod unary;
mod variants;
pub mod num;
pub mod rt;

pub static ENTRIES: &[(&str, extern "C" fn())] = &[
    ("check_add", arith::check_add),
    ("check_add_wide", arith::check_add_wide),
    ("check_add_limit", arith::check_add_limit),
    ("check_add_distant", arith::check_add_distant),
    ("check_mul", arith::check_mul),
    ("check_mul_wide", arith::check_mul_wide),
    ("check_mul_carry", arith::check_mul_carry),
    ("check_mul_limit", arith::check_mul_limit),
    ("check_add_long", arith::check_add_long),
    ("check_mul_long", arith::check_mul_long),
    ("check_cmp", cmp::check_cmp),
    ("check_cmp_wide", cmp::check_cmp_wide),
    ("check_cmp_distant", cmp::check_cmp_distant),
    ("check_cmp_variants", cmp::check_cmp_variants),
    ("check_hash", cmp::check_hash),
    ("check_hash_wide", cmp::check_hash_wide),
    ("check_hash_differs", cmp::check_hash_differs),
    ("check_cmp_long", cmp::check_cmp_long),
    ("check_hash_long", cmp::check_hash_long),
    ("check_div_signs", div::check_div_signs),
    ("check_div", div::check_div),
    ("check_div_trunc", div::check_div_trunc),
    ("check_rem", div::check_rem),
    ("check_rem_wide", div::check_rem_wide),
    ("check_div_zero", div::check_div_zero),
    ("check_div_wide", div::check_div_wide),
    ("check_div_trunc_wide", div::check_div_trunc_wide),
    ("check_div_digit", div::check_div_digit),
    ("check_trunc_digit", div::check_trunc_digit),
    ("check_div_long", div::check_div_long),
    ("check_div_trunc_long", div::check_div_trunc_long),
    ("check_header_short", enc::check_header_short),
    ("check_header_long", enc::check_header_long),
    ("check_header_zero", enc::check_header_zero),
    ("check_long_operand", enc::check_long_operand),
    ("check_header_results", enc::check_header_results),
    ("check_header_huge", enc::check_header_huge),
    ("check_from_f64", fl::check_from_f64),
    ("check_from_f32", fl::check_from_f32),
    ("check_from_float_special", fl::check_from_float_special),
    ("check_to_f64", fl::check_to_f64),
    ("check_to_f32", fl::check_to_f32),
    ("check_to_float_long", fl::check_to_float_long),
    ("check_to_float_special", fl::check_to_float_special),
    ("check_text", fmt::check_text),
    ("check_text_roundtrip", fmt::check_text_roundtrip),
    ("check_sci", fmt::check_sci),
    ("check_sci_limit", fmt::check_sci_limit),
    ("check_normalize", fmt::check_normalize),
    ("check_normalize_eq", fmt::check_normalize_eq),
    ("check_text_long", fmt::check_text_long),
    ("check_text_mid", fmt::check_text_mid),
    ("check_sci_mid", fmt::check_sci_mid),
    ("check_normal_mid", fmt::check_normal_mid),
    ("check_pow_int", func::check_pow_int),
    ("check_pow_higher", func::check_pow_higher),
    ("check_pow_wide", func::check_pow_wide),
    ("check_pow_exponents", func::check_pow_exponents),
    ("check_pow_large", func::check_pow_large),
    ("check_pow_long", func::check_pow_long),
    ("check_pow_negative", func::check_pow_negative),
    ("check_pow_special", func::check_pow_special),
    ("check_domain", func::check_domain),
    ("check_zero_divisor", func::check_zero_divisor),
    ("check_factorial", func::check_factorial),
    ("check_from_int", ints::check_from_int),
    ("check_from_int_near", ints::check_from_int_near),
    ("check_from_bool", ints::check_from_bool),
    ("check_to_int", ints::check_to_int),
    ("check_to_int_wide", ints::check_to_int_wide),
    ("check_to_int_long", ints::check_to_int_long),
    ("check_to_int_variants", ints::check_to_int_variants),
    ("check_to_int_nan", ints::check_to_int_nan),
    ("check_history", mem::check_history),
    ("check_no_leak", mem::check_no_leak),
    ("check_nan_binary", nan::check_nan_binary),
    ("check_nan_unary", nan::check_nan_unary),
    ("check_nan_pow_log", nan::check_nan_pow_log),
    ("check_parse_any", parse::check_parse_any),
    ("check_parse_utf8", parse::check_parse_utf8),
    ("check_parse_edit", parse::check_parse_edit),
    ("check_parse_value", parse::check_parse_value),
    ("check_parse_limit", parse::check_parse_limit),
    ("check_parse_consts", parse::check_parse_consts),
    ("check_parse_long", parse::check_parse_long),
    ("check_parse_word", parse::check_parse_word),
    ("check_round", round::check_round),
    ("check_trunc", round::check_trunc),
    ("check_round_wide", round::check_round_wide),
    ("check_round_carry", round::check_round_carry),
    ("check_round_limit", round::check_round_limit),
    ("check_ceil_floor", round::check_ceil_floor),
    ("check_round_long", round::check_round_long),
    #[cfg(feature = "serde")] ("check_serde_roundtrip", sd::check_serde_roundtrip),
    #[cfg(feature = "serde")] ("check_serde_bytes", sd::check_serde_bytes),
    #[cfg(feature = "serde")] ("check_serde_text", sd::check_serde_text),
    ("check_typmod_new", typmod::check_typmod_new),
    ("check_typmod_precision", typmod::check_typmod_precision),
    ("check_typmod_eq", typmod::check_typmod_eq),
    ("check_typmod_text", typmod::check_typmod_text),
    ("check_apply", typmod::check_apply),
    ("check_apply_wide", typmod::check_apply_wide),
    ("check_apply_carry", typmod::check_apply_carry),
    ("check_apply_none", typmod::check_apply_none),
    ("check_apply_limit", typmod::check_apply_limit),
    ("check_apply_long", typmod::check_apply_long),
    ("check_neg", unary::check_neg),
    ("check_abs", unary::check_abs),
    ("check_sign", unary::check_sign),
    ("check_inc", unary::check_inc),
    ("check_inc_limit", unary::check_inc_limit),
    ("check_copy", unary::check_copy),
    ("check_unary_long", unary::check_unary_long),
    ("check_operators", variants::check_operators),
    ("check_operators_wide", variants::check_operators_wide),
    ("check_operators_limit", variants::check_operators_limit),
    ("check_commutes", variants::check_commutes),
];
