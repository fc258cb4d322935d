//! A small stateless model checker.
//!
//! * `engine` - exhaustive depth-first enumeration of a choice tree, in parallel, with an
//!   optional bound on deviations from the default answer.
//! * `coro`   - stackful coroutines (one per modelled process).
//! * `host`   - a deterministic model of the Lunatic host (processes, mailboxes, TCP); every
//!   scheduling decision and every environment answer is a choice of the engine.
//! * `report` - command line, evidence, known findings and replay files.
pub mod coro;
pub mod engine;
pub mod host;
pub mod json;
pub mod report;

pub use engine::{
    choose, choose_dev, fail, fail_key, hash_seed, note, outcome, pick, step, Config, Exploration, Violation,
};
