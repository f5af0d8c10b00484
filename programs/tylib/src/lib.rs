//! What generated client programs link against: the library, and container
//! kinds a user wrote (their `unsafe impl`s cannot be in the programs, which
//! are all safe code).
#[path = "../../../harness/src/conts.rs"]
pub mod conts;
pub use indexing;
