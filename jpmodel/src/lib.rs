//! Reference model of RFC 9535 JSONPath (plus the documented extensions of the
//! `singular` crate). Nothing in here depends on the code under test.
pub mod abnf;
pub mod ast;
pub mod eval;
pub mod gc;
pub mod iregexp;
pub mod parse;
pub mod path;
pub mod render;
pub mod types;
