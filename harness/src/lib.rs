#![feature(internal_output_capture, formatting_options)]
#![allow(clippy::all)]
pub mod engine;
pub mod schema;
pub mod reflect;
pub mod catalog;
pub mod pmodel;
pub mod inputs;
pub mod fmtall;
pub use engine::*;
pub use schema::*;
pub use reflect::*;
