//! Client code that only instantiates the library's macros and derives, so that their expansions are type-checked
//! and dumped together with the library. Nothing here is ever executed. What each item is expected to mean is
//! written next to it in a table of the engine (syntax.py).
#![allow(dead_code, unused_variables, mixed_script_confusables)]
#[macro_use] extern crate aegir;

pub mod idents;
pub mod contexts;
pub mod macros;
pub mod macros_gen;
pub mod idents_gen;
pub mod contexts_gen;
