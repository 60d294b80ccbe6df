//! Runtime monitors for dao-contracts: shared chain wrapper, workload driver,
//! coverage accounting and verdicts.
pub mod big;
pub mod gov;
pub mod ranked;
pub mod rewards;
pub mod puppet;
pub mod core;
pub mod chain;
pub mod drive;
pub mod electorate;
pub mod tf;
pub mod model;
pub mod stake;
pub mod nft;
pub mod gate;
pub mod hooks;
pub mod members;
pub mod prepro;
pub mod fund;
pub mod extrew;
pub mod chainstake;
pub mod vest;
pub mod swap;
pub mod issuer;
pub mod factory;
pub mod migrate;

pub use chain::*;
pub use drive::*;
pub use puppet::*;
pub use rand::prelude::*;
pub use serde_json::{json, Value};
