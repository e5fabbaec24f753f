//! The fork-join API that ragu reaches through `maybe-rayon`, executed by the
//! deterministic simulator in `simrt`. Outside a simulation it is sequential.


#[cfg(feature = "threads")]
mod sim;
#[cfg(feature = "threads")]
pub use sim::*;

#[cfg(not(feature = "threads"))]
mod serial;
#[cfg(not(feature = "threads"))]
pub use serial::*;
