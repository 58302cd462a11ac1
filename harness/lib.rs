#![allow(static_mut_refs, dead_code, non_upper_case_globals, unused)]
#[path = "common.rs"]
pub mod common;
#[path = "disc.rs"]
pub mod disc;
#[path = "step.rs"]
pub mod step;
#[path = "nav.rs"]
pub mod nav;
#[path = "iter.rs"]
pub mod iter;
#[path = "whole.rs"]
pub mod whole;
#[path = "node.rs"]
pub mod node;
#[path = "off.rs"]
pub mod off;
#[path = "arb.rs"]
pub mod arb;
#[path = "fault.rs"]
pub mod fault;
#[path = "sto.rs"]
pub mod sto;
#[path = "hist.rs"]
pub mod hist;
#[cfg(feature = "dot")]
#[path = "dot.rs"]
pub mod dot;
#[path = "zst.rs"]
pub mod zst;
#[path = "array.rs"]
pub mod array;
#[path = "alias.rs"]
pub mod alias;
#[path = "text.rs"]
pub mod text;
#[path = "cost.rs"]
pub mod cost;
#[path = "entries.rs"]
mod entries;
pub use entries::ENTRIES;
