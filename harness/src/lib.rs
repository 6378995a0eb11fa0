pub mod dict;
pub mod engine;
pub mod entries;
pub mod gens;
pub mod grammar;
pub mod lex;
pub mod props;
pub mod templates;
pub mod tree;
