#[macro_use]
pub mod engine;
pub mod alloc;
pub mod first;
pub mod model;
pub mod numfl;
pub mod numsp;
pub mod ops;
pub mod scalars;
pub mod sched;
pub mod spaces;
pub mod tags;
pub mod valid;
