//! The reference model: an independent definitional interpreter for the language, over syntax trees which are
//! printed to source text for the implementation under test.

pub mod ast;
pub mod consts;
pub mod gen;
pub mod interp;
pub mod literal;
pub mod natives;
pub mod ops;
pub mod regex;
pub mod value;
