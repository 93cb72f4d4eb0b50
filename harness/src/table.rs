//! Written by tools/gentable.py.
pub static ALL: &[(&str, extern "C" fn())] = &[
    ("h_c01_bytes", crate::c01::h_c01_bytes),
    ("h_c01_tokens", crate::c01::h_c01_tokens),
    ("h_c01_edit", crate::c01::h_c01_edit),
    ("h_c01_cut", crate::c01::h_c01_cut),
    ("h_c01_pieces", crate::c01::h_c01_pieces),
    ("h_c01_wide", crate::c01::h_c01_wide),
    ("h_c02_any", crate::c02::h_c02_any),
    ("h_c02_near", crate::c02::h_c02_near),
    ("h_c02_nest", crate::c02::h_c02_nest),
    ("h_c02_edit", crate::c02::h_c02_edit),
    ("h_c03_full", crate::c03::h_c03_full),
    ("h_c03_levels", crate::c03::h_c03_levels),
    ("h_c03_postfix", crate::c03::h_c03_postfix),
    ("h_c03_nest", crate::c03::h_c03_nest),
    ("h_c04_lines", crate::c04::h_c04_lines),
    ("h_c04_deep", crate::c04::h_c04_deep),
    ("h_c04_mixed", crate::c04::h_c04_mixed),
    ("h_c04_levels", crate::c04::h_c04_levels),
    ("h_c05_bytes", crate::c05::h_c05_bytes),
    ("h_c05_one", crate::c05::h_c05_one),
    ("h_c05_all", crate::c05::h_c05_all),
    ("h_c05_crlf", crate::c05::h_c05_crlf),
    ("h_c06_last", crate::c06::h_c06_last),
    ("h_c06_rows", crate::c06::h_c06_rows),
    ("h_c06_backslash", crate::c06::h_c06_backslash),
    ("h_c07_bytes", crate::c07::h_c07_bytes),
    ("h_c07_alpha", crate::c07::h_c07_alpha),
    ("h_c07_words", crate::c07::h_c07_words),
    ("h_c07_unicode", crate::c07::h_c07_unicode),
    ("h_c08_bytes", crate::c08::h_c08_bytes),
    ("h_c08_pieces", crate::c08::h_c08_pieces),
    ("h_c08_strings", crate::c08::h_c08_strings),
    ("h_c08_unicode", crate::c08::h_c08_unicode),
    ("h_c08_long", crate::c08::h_c08_long),
    ("h_c09_digits", crate::c09::h_c09_digits),
    ("h_c09_long", crate::c09::h_c09_long),
    ("h_c09_ends", crate::c09::h_c09_ends),
    ("h_c09_string", crate::c09::h_c09_string),
    ("h_c09_among", crate::c09::h_c09_among),
    ("h_c10_seq", crate::c10::h_c10_seq),
    ("h_c10_near", crate::c10::h_c10_near),
    ("h_c10_nest", crate::c10::h_c10_nest),
    ("h_c10_deep", crate::c10::h_c10_deep),
    ("h_c11_seq", crate::c11::h_c11_seq),
    ("h_c11_seq2", crate::c11::h_c11_seq2),
    ("h_c11_nest", crate::c11::h_c11_nest),
    ("h_c11_heads", crate::c11::h_c11_heads),
    ("h_c12_expr", crate::c12::h_c12_expr),
    ("h_c12_kinds", crate::c12::h_c12_kinds),
    ("h_c12_limit", crate::c12::h_c12_limit),
    ("h_c12_nest", crate::c12::h_c12_nest),
    ("h_c13_braced", crate::c13::h_c13_braced),
    ("h_c13_bare", crate::c13::h_c13_bare),
    ("h_c13_array", crate::c13::h_c13_array),
    ("h_c13_many", crate::c13::h_c13_many),
    ("h_c13_nest", crate::c13::h_c13_nest),
    ("h_c14_seq", crate::c14::h_c14_seq),
    ("h_c14_left", crate::c14::h_c14_left),
    ("h_c14_nest", crate::c14::h_c14_nest),
    ("h_c15_seq", crate::c15::h_c15_seq),
    ("h_c15_class", crate::c15::h_c15_class),
    ("h_c15_value", crate::c15::h_c15_value),
    ("h_c15_methods", crate::c15::h_c15_methods),
    ("h_c15_nest", crate::c15::h_c15_nest),
    ("h_c16_scopes", crate::c16::h_c16_scopes),
    ("h_c16_deep", crate::c16::h_c16_deep),
    ("h_c16_classes", crate::c16::h_c16_classes),
    ("h_c16_places", crate::c16::h_c16_places),
    ("h_c16_parsed", crate::c16::h_c16_parsed),
    ("h_c16_branches", crate::c16::h_c16_branches),
    ("h_c16_nest", crate::c16::h_c16_nest),
    ("h_c17_ways", crate::c17::h_c17_ways),
    ("h_c17_limit", crate::c17::h_c17_limit),
    ("h_c17_session", crate::c17::h_c17_session),
    ("h_c18_decls", crate::c18::h_c18_decls),
    ("h_c18_returns", crate::c18::h_c18_returns),
    ("h_c18_this", crate::c18::h_c18_this),
    ("h_c18_inherit", crate::c18::h_c18_inherit),
    ("h_c18_places", crate::c18::h_c18_places),
    ("h_c18_branches", crate::c18::h_c18_branches),
    ("h_c18_nest", crate::c18::h_c18_nest),
    ("h_c18_parsed", crate::c18::h_c18_parsed),
    ("h_c19_nested", crate::c19::h_c19_nested),
    ("h_c19_lines", crate::c19::h_c19_lines),
    ("h_c19_places", crate::c19::h_c19_places),
    ("h_c19_params", crate::c19::h_c19_params),
    ("h_c19_branches", crate::c19::h_c19_branches),
    ("h_c19_nest", crate::c19::h_c19_nest),
    ("h_c20_any", crate::c20::h_c20_any),
    ("h_c20_near", crate::c20::h_c20_near),
    ("h_c20_seq", crate::c20::h_c20_seq),
    ("h_c20_expr", crate::c20::h_c20_expr),
    ("h_c20_bytes", crate::c20::h_c20_bytes),
    ("h_c20_unicode", crate::c20::h_c20_unicode),
    ("h_c20_pieces", crate::c20::h_c20_pieces),
    ("h_c20_names", crate::c20::h_c20_names),
    ("h_c20_edit", crate::c20::h_c20_edit),
    ("h_c20_limit", crate::c20::h_c20_limit),
    ("h_c21_any", crate::c21::h_c21_any),
    ("h_c21_near", crate::c21::h_c21_near),
    ("h_c21_ends", crate::c21::h_c21_ends),
    ("h_c21_expr", crate::c21::h_c21_expr),
    ("h_c21_expr_near", crate::c21::h_c21_expr_near),
    ("h_c21_bytes", crate::c21::h_c21_bytes),
    ("h_c21_pieces", crate::c21::h_c21_pieces),
    ("h_c22_bytes", crate::c22::h_c22_bytes),
    ("h_c22_sources", crate::c22::h_c22_sources),
    ("h_c22_two", crate::c22::h_c22_two),
    ("h_c22_session", crate::c22::h_c22_session),
    ("h_c22_typed", crate::c22::h_c22_typed),
    ("h_c22_long", crate::c22::h_c22_long),
    ("h_c22_big", crate::c22::h_c22_big),
    ("h_c24_actions", crate::c24::h_c24_actions),
    ("h_c24_places", crate::c24::h_c24_places),
    ("h_c24_branches", crate::c24::h_c24_branches),
    ("h_c24_nest", crate::c24::h_c24_nest),
    ("h_c24_parsed", crate::c24::h_c24_parsed),
    ("h_c24_near", crate::c24::h_c24_near),
    ("h_c24_scale", crate::c24::h_c24_scale),
    ("h_c24_spelling", crate::c24::h_c24_spelling),
    ("h_c24_strings", crate::c24::h_c24_strings),
    ("h_c24_numbers", crate::c24::h_c24_numbers),
    ("h_c24_far", crate::c24::h_c24_far),
    ("h_c25_two", crate::c25::h_c25_two),
    ("h_c25_bytes", crate::c25::h_c25_bytes),
    ("h_c25_pieces", crate::c25::h_c25_pieces),
    ("h_c25_many", crate::c25::h_c25_many),
    ("h_c25_large", crate::c25::h_c25_large),
    ("h_c25_alike", crate::c25::h_c25_alike),
    ("h_zz_str", crate::conform::h_zz_str),
    ("h_zz_coll", crate::conform::h_zz_coll),
    ("h_zz_num", crate::conform::h_zz_num),
    ("h_zz_misc", crate::conform::h_zz_misc),
    ("h_zz_fp", crate::conform::h_zz_fp),
    ("h_c07_letters", crate::letters::h_c07_letters),
    ("h_c07_word", crate::letters::h_c07_word),
    ("h_c08_letters", crate::letters::h_c08_letters),
    ("h_c04_letters", crate::letters::h_c04_letters),
    ("h_c06_letters", crate::letters::h_c06_letters),
    ("h_c05_letters", crate::letters::h_c05_letters),
    ("h_c09_printable", crate::letters::h_c09_printable),
    ("h_c10_letters", crate::letters::h_c10_letters),
    ("h_c02_letters", crate::letters::h_c02_letters),
    ("h_c01_letters", crate::letters::h_c01_letters),
    ("h_c20_letters", crate::letters::h_c20_letters),
    ("h_c03_letters", crate::letters::h_c03_letters),
    ("h_c11_letters", crate::letters::h_c11_letters),
    ("h_c12_letters", crate::letters::h_c12_letters),
    ("h_c13_words", crate::letters::h_c13_words),
    ("h_c13_quoted", crate::letters::h_c13_quoted),
    ("h_c14_letters", crate::letters::h_c14_letters),
    ("h_c15_letters", crate::letters::h_c15_letters),
    ("h_c21_letters", crate::letters::h_c21_letters),
    ("h_c01_words", crate::letters::h_c01_words),
    ("h_c16_letters", crate::letters::h_c16_letters),
    ("h_c17_letters", crate::letters::h_c17_letters),
    ("h_c18_letters", crate::letters::h_c18_letters),
    ("h_c24_letters", crate::letters::h_c24_letters),
    ("h_c19_letters", crate::letters::h_c19_letters),
    ("h_c22_letters", crate::letters::h_c22_letters),
    ("h_c25_letters", crate::letters::h_c25_letters),
    ("h_c05_scale", crate::long::h_c05_scale),
    ("h_c05_comment", crate::long::h_c05_comment),
    ("h_c06_scale", crate::long::h_c06_scale),
    ("h_c07_long", crate::long::h_c07_long),
    ("h_c07_wide", crate::long::h_c07_wide),
    ("h_c08_wide", crate::long::h_c08_wide),
    ("h_c08_lines", crate::long::h_c08_lines),
    ("h_c09_scale", crate::long::h_c09_scale),
    ("h_c09_wide", crate::long::h_c09_wide),
    ("h_c04_wide", crate::long::h_c04_wide),
    ("h_c04_stack", crate::long::h_c04_stack),
    ("h_c20_many", crate::long::h_c20_many),
    ("h_c20_errors", crate::long::h_c20_errors),
    ("h_c01_many", crate::long::h_c01_many),
    ("h_c19_many", crate::long::h_c19_many),
    ("h_c21_scale", crate::long::h_c21_scale),
    ("h_c21_alone", crate::long::h_c21_alone),
    ("h_c22_wide", crate::long::h_c22_wide),
    ("h_c13_limit", crate::long::h_c13_limit),
    ("h_c07_mixed", crate::long::h_c07_mixed),
    ("h_c08_mixed", crate::long::h_c08_mixed),
    ("h_c20_mixed", crate::long::h_c20_mixed),
    ("h_c19_history", crate::long::h_c19_history),
    ("h_c01_odd", crate::odd::h_c01_odd),
    ("h_c07_odd", crate::odd::h_c07_odd),
    ("h_c08_odd", crate::odd::h_c08_odd),
    ("h_c20_odd", crate::odd::h_c20_odd),
    ("h_c21_odd", crate::odd::h_c21_odd),
    ("h_c22_odd", crate::odd::h_c22_odd),
    ("h_c01_scale", crate::scale::h_c01_scale),
    ("h_c02_scale", crate::scale::h_c02_scale),
    ("h_c03_scale", crate::scale::h_c03_scale),
    ("h_c10_scale", crate::scale::h_c10_scale),
    ("h_c11_scale", crate::scale::h_c11_scale),
    ("h_c14_scale", crate::scale::h_c14_scale),
    ("h_c15_scale", crate::scale::h_c15_scale),
    ("h_c20_scale", crate::scale::h_c20_scale),
    ("h_c13_spelling", crate::spell::h_c13_spelling),
    ("h_c13_letters", crate::spell::h_c13_letters),
    ("h_c02_spelling", crate::spell::h_c02_spelling),
    ("h_c15_spelling", crate::spell::h_c15_spelling),
    ("h_c20_spelling", crate::spell::h_c20_spelling),
    ("h_c01_spelling", crate::spell::h_c01_spelling),
    ("h_c16_spelling", crate::spell::h_c16_spelling),
    ("h_c17_spelling", crate::spell::h_c17_spelling),
    ("h_c18_spelling", crate::spell::h_c18_spelling),
    ("h_c16_far", crate::spell::h_c16_far),
    ("h_c18_far", crate::spell::h_c18_far),
    ("h_c18_many", crate::spell::h_c18_many),
    ("h_c03_values", crate::values::h_c03_values),
    ("h_c10_values", crate::values::h_c10_values),
    ("h_c02_values", crate::values::h_c02_values),
    ("h_c01_values", crate::values::h_c01_values),
    ("h_c16_values", crate::values::h_c16_values),
    ("h_c18_values", crate::values::h_c18_values),
    ("h_c24_values", crate::values::h_c24_values),
    ("h_c16_wraps", crate::wraps::h_c16_wraps),
    ("h_c17_wraps", crate::wraps::h_c17_wraps),
    ("h_c18_wraps", crate::wraps::h_c18_wraps),
    ("h_c24_wraps", crate::wraps::h_c24_wraps),
    ("h_c19_wraps", crate::wraps::h_c19_wraps),
];
