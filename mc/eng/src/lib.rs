//! The shape engine: a dynamic description of every value of the Müsli data
//! model, which encodes and decodes itself through the public `Encoder` and
//! `Decoder` traits, the registry of formats under test and their options, and
//! the enumeration of shapes and values.

pub mod any;
pub mod den;
pub mod dynv;
pub mod formats;
pub mod json;
pub mod sample;
pub mod shape;
pub mod values;
pub mod stds;
pub mod zoo;
pub mod zoo_den;

pub use any::*;
pub use den::*;
pub use dynv::*;
pub use formats::*;
pub use json::*;
pub use sample::*;
pub use shape::*;
pub use values::*;
pub use zoo::*;
