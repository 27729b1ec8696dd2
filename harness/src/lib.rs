//! Property-based checks of the `poker` crate. See /verif/DESIGN.md.
pub mod driver;
pub mod glue;
pub mod model;
pub mod props_rank;
pub mod props_order;
pub mod props_err;
pub mod props_inv;
pub mod props_parse;
pub mod props_deck;
pub mod programs;
pub mod props_game;
pub mod props_repl;
