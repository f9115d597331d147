//! Helpers shared by harnesses.

use std::io::Cursor;

pub use postscript::tape::Read;

use crate::sx;

/// Observe bytes.
#[allow(dead_code)]
pub fn observe_bytes(bytes: &[u8]) {
    sx::observe(bytes.len() as u64);
    for byte in bytes {
        sx::observe(*byte as u64);
    }
}

/// Read a value from the beginning of a slice and report the number of bytes consumed.
pub fn read<T: postscript::value::Read>(bytes: &[u8]) -> Option<(T, usize)> {
    let mut tape = Cursor::new(bytes);
    match tape.take::<T>() {
        Ok(value) => {
            let position = tape.position() as usize;
            Some((value, position))
        }
        Err(_) => None,
    }
}

/// Read a value given a parameter.
pub fn read_given<'l, T: postscript::walue::Read<'l>>(
    bytes: &[u8],
    parameter: T::Parameter,
) -> Option<(T, usize)> {
    let mut tape = Cursor::new(bytes);
    match tape.take_given::<T>(parameter) {
        Ok(value) => {
            let position = tape.position() as usize;
            Some((value, position))
        }
        Err(_) => None,
    }
}

/// Compare without branching on the contents.
pub fn same(one: &[u8], other: &[u8]) -> bool {
    if one.len() != other.len() {
        return false;
    }
    let mut result = true;
    for i in 0..one.len() {
        result &= one[i] == other[i];
    }
    result
}
