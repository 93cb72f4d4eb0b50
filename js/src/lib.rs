//! C23: the harnesses of the browser entry point.
pub mod c23;
pub static ALL: &[(&str, extern "C" fn())] = &[
    ("h_c23_bytes", c23::h_c23_bytes),
    ("h_c23_sources", c23::h_c23_sources),
    ("h_c23_two", c23::h_c23_two),
    ("h_c23_nest", c23::h_c23_nest),
    ("h_c23_map", c23::h_c23_map),
    ("h_c23_literals", c23::h_c23_literals),
    ("h_c23_scopes", c23::h_c23_scopes),
    ("h_c23_scale", c23::h_c23_scale),
    ("h_c23_spelling", c23::h_c23_spelling),
    ("h_c23_strings", c23::h_c23_strings),
    ("h_c23_odd", c23::h_c23_odd),
    ("h_c23_many", c23::h_c23_many),
    ("h_c23_letters", c23::h_c23_letters),
];
