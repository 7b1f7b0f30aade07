#![allow(bare_trait_objects, dyn_drop)]
pub mod dict;
pub mod src;
pub mod runner;
pub mod sym;
pub mod pat;
pub mod refnfa;
pub mod lib_api;
pub mod common;
pub mod tok;
pub mod machine;
pub mod listing;
pub mod tree;
pub mod huge;
pub mod unopt;
