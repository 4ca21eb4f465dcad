#![allow(clippy::all, non_snake_case)]
pub mod adapt;
pub mod cases;
pub mod codec;
pub mod eng;
pub mod model;
pub mod runner;
pub mod spec;
pub mod toy;

pub use adapt::*;
pub use cases::*;
pub use codec::{Field_, Kind, Obj, KINDS};
pub use eng::*;
pub use model::*;
pub use runner::*;
pub use spec::*;
