//! Harnesses: symbolic inputs -> real code of /repo -> checked assertions.
//! Written by tools/gentable.py.
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c24;
pub mod c25;
pub mod conform;
pub mod corpus;
pub mod gen;
pub mod letters;
pub mod long;
pub mod nest;
pub mod odd;
pub mod refp;
pub mod refr;
pub mod refs;
pub mod scale;
pub mod spell;
pub mod sym;
pub mod toks;
pub mod values;
pub mod wraps;
pub mod table;
pub use table::ALL;
