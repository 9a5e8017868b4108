//! Property-based checks for the gift crate.
pub mod cli;
pub mod engine;
pub mod generate;
pub mod io;
pub mod mem;
pub mod props;
pub mod refgif;
pub mod run;
pub mod tape;
pub mod view;
