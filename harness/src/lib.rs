//! Runs speedy's public entry points and records what they do, for comparison with /verif/spec.
pub mod util;
pub mod model;
#[cfg(any(feature = "std", feature = "noext"))]
pub mod ext;
pub mod ops;
pub mod jobs;
pub mod guided;
pub mod life;

#[global_allocator]
static ALLOC: util::Counting = util::Counting;
pub mod tick;
