//! Harnesses: one function per claim about the crate, over symbolic inputs.
#![allow(clippy::all)]

pub mod sx;

mod util;

pub mod charset;
pub mod dictionary;
pub mod encoding;
pub mod fault;
pub mod font;
pub mod glyph;
pub mod index;
pub mod memory;
pub mod number;
pub mod place;
pub mod program;
pub mod progress;
pub mod robust;
pub mod tables;
pub mod view;

/// All harnesses.
pub fn all() -> impl Iterator<Item = &'static sx::Harness> {
    [
        charset::ALL,
        dictionary::ALL,
        encoding::ALL,
        fault::ALL,
        font::ALL,
        glyph::ALL,
        index::ALL,
        memory::ALL,
        number::ALL,
        place::ALL,
        program::ALL,
        progress::ALL,
        robust::ALL,
    ]
    .into_iter()
    .flatten()
}
