//! The checks of /verif, compiled into the program under test.
#![allow(dead_code, unused_imports)]
pub mod sym;
pub mod world;
pub mod spec;
pub mod kit;
#[macro_use]
mod entry;
pub mod c_space;
pub mod c_nodes;
pub mod c_meta;
pub mod c_blocks;
pub mod c_format;
pub mod c_bad;
pub mod c_copy;
pub mod c_run;
pub mod c_cli;

pub fn table() -> Vec<(&'static str, fn())> {
    let mut t = Vec::new();
    t.extend_from_slice(c_space::TABLE);
    t.extend_from_slice(c_nodes::TABLE);
    t.extend_from_slice(c_meta::TABLE);
    t.extend_from_slice(c_blocks::TABLE);
    t.extend_from_slice(c_format::TABLE);
    t.extend_from_slice(c_bad::TABLE);
    t.extend_from_slice(c_copy::TABLE);
    t.extend_from_slice(c_run::TABLE);
    t.extend_from_slice(c_cli::TABLE);
    t
}
